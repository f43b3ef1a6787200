//! Forms of the same code the contracts (and the verifier) know in one way only, rewritten to that way before the extraction.
//! Each rewriting keeps what the code does whatever the names mean, or does not compile:
//! - `if X.iter().any(|p| E) { ..leaves.. }` -> `for p in X.iter() { if E { ..leaves.. } }`, and `!all` alike;
//! - `loop { if C { break; } REST }` -> `while !(C) { REST }`;
//! - `for i in 0..X.len() { .. X[i] .. }` (no other `i`) -> `for p in X.iter() { .. *p .. }`;
//! - patterns of slices (`[a, b, rest @ ..]`) -> tests of the length and indexing.
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

use crate::edits::Edits;

fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn squeeze<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}

/// Control never comes out of the end of the block.
fn leaves(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) || matches!(b.stmts.last(), Some(Stmt::Macro(m)) if matches!(squeeze(&m.mac.path).as_str(), "bail" | "panic" | "anyhow::bail"))
}

struct Finder<'t> {
    text: &'t str,
    /// the first rewriting found
    found: Option<((usize, usize), String)>,
    /// expressions in statement position
    n: usize,
}

impl<'t> Finder<'t> {
    fn src(&self, r: (usize, usize)) -> &'t str {
        &self.text[r.0..r.1]
    }
    fn of<T: Spanned>(&self, t: &T) -> &'t str {
        self.src(range(t))
    }
    fn set(&mut self, r: (usize, usize), t: String) {
        if self.found.is_none() {
            self.found = Some((r, t));
        }
    }

    fn any_if(&mut self, i: &ExprIf) {
        if i.else_branch.is_some() || !leaves(&i.then_branch) {
            return;
        }
        let (not, c) = match unparen(&i.cond) {
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (true, unparen(&u.expr)),
            e => (false, e),
        };
        let m = match c {
            Expr::MethodCall(m) if m.method == if not { "all" } else { "any" } && m.args.len() == 1 => m,
            _ => return,
        };
        if !matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty()) {
            return;
        }
        if let Expr::Closure(k) = &m.args[0] {
            if k.inputs.len() != 1 {
                return;
            }
            let t = format!(
                "for {} in {} {{ if {}({}) {} }}",
                self.of(&k.inputs[0]),
                self.of(&m.receiver),
                if not { "!" } else { "" },
                self.of(&k.body),
                self.of(&i.then_branch)
            );
            self.set(range(i), t);
        }
    }

    fn break_first(&mut self, l: &ExprLoop) {
        if l.label.is_some() {
            return;
        }
        let (first, rest) = match l.body.stmts.split_first() {
            Some(x) => x,
            None => return,
        };
        let i = match first {
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && i.then_branch.stmts.len() == 1 => i,
            _ => return,
        };
        if !matches!(&i.then_branch.stmts[0], Stmt::Expr(Expr::Break(b), _) if b.expr.is_none() && b.label.is_none()) || matches!(*i.cond, Expr::Let(_)) {
            return;
        }
        // a value broken out of
        struct B(bool);
        impl<'a> Visit<'a> for B {
            fn visit_expr_break(&mut self, b: &'a ExprBreak) {
                self.0 |= b.expr.is_some() || b.label.is_some();
            }
        }
        let mut b = B(false);
        b.visit_block(&l.body);
        if b.0 || rest.is_empty() {
            return;
        }
        let r = (range(&rest[0]).0, range(&l.body).1 - 1);
        let c = &i.cond;
        // the negation as it would be written
        let neg = match unparen(c) {
            Expr::Binary(x) => {
                let op = match x.op {
                    BinOp::Lt(_) => ">=",
                    BinOp::Le(_) => ">",
                    BinOp::Gt(_) => "<=",
                    BinOp::Ge(_) => "<",
                    BinOp::Eq(_) => "!=",
                    BinOp::Ne(_) => "==",
                    _ => "",
                };
                if op.is_empty() {
                    format!("!({})", self.of(&**c))
                } else {
                    format!("{} {} {}", self.of(&*x.left), op, self.of(&*x.right))
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.of(&*u.expr).to_string(),
            e => format!("!({})", self.of(e)),
        };
        self.set(range(l), format!("while {} {{ {} }}", neg, self.src(r)));
    }

    fn index_for(&mut self, l: &ExprForLoop) {
        let i = match &*l.pat {
            Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => p.ident.to_string(),
            _ => return,
        };
        let x = match unparen(&l.expr) {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => match (r.start.as_deref(), r.end.as_deref()) {
                (Some(Expr::Lit(z)), Some(Expr::MethodCall(m))) if squeeze(z) == "0" && m.method == "len" && m.args.is_empty() => squeeze(&m.receiver),
                _ => return,
            },
            _ => return,
        };
        struct Ix<'x> {
            i: &'x str,
            x: &'x str,
            at: Vec<(usize, usize)>,
            refs: Vec<(usize, usize)>,
        }
        impl<'a, 'x> Visit<'a> for Ix<'x> {
            fn visit_expr(&mut self, e: &'a Expr) {
                match e {
                    Expr::Reference(r) if r.mutability.is_none() && self.is(&r.expr) => self.refs.push(range(e)),
                    e if self.is(e) => self.at.push(range(e)),
                    e => visit::visit_expr(self, e),
                }
            }
        }
        impl<'x> Ix<'x> {
            fn is(&self, e: &Expr) -> bool {
                matches!(e, Expr::Index(k) if squeeze(&k.index) == self.i && squeeze(&k.expr) == self.x)
            }
        }
        let mut ix = Ix { i: &i, x: &x, at: vec![], refs: vec![] };
        ix.visit_block(&l.body);
        let uses = crate::inline::tokens_of(&l.body).iter().filter(|t| **t == i).count();
        if uses == 0 || uses != ix.at.len() + ix.refs.len() {
            return;
        }
        self.n += 1;
        let v = format!("vx_p{}", range(l).0);
        let mut ed = Edits::new(self.text.to_string());
        for (s, e) in ix.refs {
            ed.replace(s, e, v.clone());
        }
        for (s, e) in ix.at {
            ed.replace(s, e, format!("(*{})", v));
        }
        let (s, e) = range(&l.body);
        self.set(range(l), format!("for {} in {}.iter() {}", v, x, ed.render(s, e)));
    }

    // ----- slice patterns -----

    /// The test and the bindings of a slice pattern against the slice `v`.
    fn slice(&self, p: &Pat, v: &str) -> Option<(String, String)> {
        let s = match p {
            Pat::Slice(s) => s,
            Pat::Reference(r) => match &*r.pat {
                // `&[a, b]` binds copies
                Pat::Slice(_) => {
                    let (t, b) = self.slice(&r.pat, v)?;
                    return Some((t, b.replace("= &vx_sl", "= vx_sl")));
                }
                _ => return None,
            },
            _ => return None,
        };
        let rest = s.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.as_ref().map_or(false, |x| matches!(*x.1, Pat::Rest(_)))));
        let n = s.elems.len();
        let (mut test, mut bind) = (String::new(), String::new());
        test.push_str(&match rest {
            Some(0) if n == 1 => "true".to_string(),
            Some(_) => format!("{}.len() >= {}", v, n - 1),
            None => format!("{}.len() == {}", v, n),
        });
        for (k, e) in s.elems.iter().enumerate() {
            let at = match rest {
                Some(r) if k > r => format!("{}.len() - {}", v, n - k),
                _ => k.to_string(),
            };
            match e {
                Pat::Rest(_) | Pat::Wild(_) => {}
                Pat::Ident(i) if i.subpat.is_some() => bind.push_str(&format!("let {} = &{}[{}..{}.len() - {}]; ", i.ident, v, k, v, n - 1 - k)),
                Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() => bind.push_str(&format!("let {} = &{}[{}]; ", i.ident, v, at)),
                Pat::Reference(r) => match &*r.pat {
                    Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => bind.push_str(&format!("let {} = {}[{}]; ", self.of(&*r.pat), v, at)),
                    _ => return None,
                },
                Pat::Lit(l) => test.push_str(&format!(" && {}[{}] == {}", v, at, self.of(l))),
                _ => return None,
            }
        }
        Some((test, bind))
    }

    fn slice_match(&mut self, m: &ExprMatch) {
        if !m.arms.iter().any(|a| self.has_slice(&a.pat)) {
            return;
        }
        let v = format!("vx_sl{}", range(m).0);
        let mut t = format!("{{ let {} = {}; ", v, self.of(&*m.expr));
        let mut open = true;
        for a in &m.arms {
            let (test, bind) = match &a.pat {
                Pat::Wild(_) => ("true".into(), String::new()),
                Pat::Ident(i) if i.subpat.is_none() => ("true".into(), format!("let {} = {}; ", i.ident, v)),
                p => match self.slice(p, &v) {
                    Some(x) => x,
                    None => return,
                },
            };
            if !open {
                return;
            }
            if let Some(g) = &a.guard {
                if !bind.is_empty() {
                    return;
                }
                t.push_str(&format!("if {} && ({}) {{ {} }} else ", test, self.of(&*g.1), self.of(&*a.body)));
            } else if test == "true" {
                t.push_str(&format!("{{ {}{} }}", bind, self.of(&*a.body)));
                open = false;
            } else {
                t.push_str(&format!("if {} {{ {}{} }} else ", test, bind, self.of(&*a.body)));
            }
        }
        if open {
            // the patterns cover everything: the last test holds
            return;
        }
        self.set(range(m), t + " }");
    }
    fn has_slice(&self, p: &Pat) -> bool {
        match p {
            Pat::Slice(_) => true,
            Pat::Reference(r) => self.has_slice(&r.pat),
            _ => false,
        }
    }
}

impl<'a, 't> Visit<'a> for Finder<'t> {
    fn visit_item_mod(&mut self, i: &'a ItemMod) {
        if !i.attrs.iter().any(|a| a.path().is_ident("cfg")) {
            visit::visit_item_mod(self, i)
        }
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        visit::visit_expr_if(self, i);
        self.any_if(i);
        if let Expr::Let(l) = &*i.cond {
            if self.has_slice(&l.pat) {
                let v = format!("vx_sl{}", range(i).0);
                if let Some((t, b)) = self.slice(&l.pat, &v) {
                    let then = self.of(&i.then_branch);
                    let other = i.else_branch.as_ref().map_or(String::new(), |(_, e)| format!(" else {{ {} }}", self.of(&**e)));
                    let s = format!("{{ let {} = {}; if {} {{ {}{} }}{} }}", v, self.of(&*l.expr), t, b, then, other);
                    self.set(range(i), s);
                }
            }
        }
    }
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        visit::visit_expr_match(self, m);
        self.slice_match(m);
    }
    fn visit_local(&mut self, l: &'a Local) {
        visit::visit_local(self, l);
        if let (true, Some(i)) = (self.has_slice(&l.pat), &l.init) {
            if let Some((_, d)) = &i.diverge {
                let v = format!("vx_sl{}", range(l).0);
                if let Some((t, b)) = self.slice(&l.pat, &v) {
                    let s = format!("let {} = {}; if !({}) {} {}", v, self.of(&*i.expr), t, self.of(&**d), b);
                    self.set(range(l), s);
                }
            }
        }
    }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        visit::visit_expr_loop(self, l);
        self.break_first(l);
    }
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        visit::visit_expr_for_loop(self, l);
        self.index_for(l);
    }
}

pub fn normal(text: String) -> String {
    let mut text = text;
    for _ in 0..100 {
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(_) => return text,
        };
        let mut f = Finder { text: &text, found: None, n: 0 };
        f.visit_file(&ast);
        let (r, t) = match f.found {
            Some(x) => x,
            None => return text,
        };
        let mut new = text.clone();
        new.replace_range(r.0..r.1, &t);
        if syn::parse_file(&new).is_err() {
            return text;
        }
        text = new;
    }
    text
}
