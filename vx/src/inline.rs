//! Calls of functions the contracts do not know are replaced by their bodies, so that what was moved into a helper is
//! verified where it is called. Works on the text of one source file; the result is parsed and extracted like any source.
//!
//! A call `h(a, b)` becomes `{ let p = a; let q = b; BODY }`; a parameter given a place (`&mut x`, `&x`, `x`, a literal) is
//! replaced by it. `return` and `?` in BODY keep their meaning only where leaving the helper is leaving the caller: in tail
//! position, and in `h(..)?` with the same error type, where also `Ok(v)` at BODY's end becomes `v` and `Err(e)` becomes
//! `return Err(e)`. Elsewhere early returns become `else` branches. What fits none of this is left as it is.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path as FsPath, PathBuf};

use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

use crate::edits::Edits;
use crate::extract::Sel;

fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn squeeze<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

struct Helper {
    name: String,
    sig: Signature,
    block: Block,
    item: (usize, usize),
    /// the type whose inherent method it is
    of: Option<String>,
    /// the enclosing module it is in, and the text of that, if it is not of the file at hand
    from: Option<(String, String)>,
}

impl Helper {
    fn method(&self) -> bool {
        self.sig.receiver().is_some()
    }
    fn ret(&self) -> String {
        match &self.sig.output {
            ReturnType::Default => "()".into(),
            ReturnType::Type(_, t) => t.to_token_stream().to_string(),
        }
    }
    fn generics(&self) -> BTreeSet<String> {
        self.sig.generics.params.iter().map(|p| match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Const(t) => t.ident.to_string(),
            GenericParam::Lifetime(l) => format!("'{}", l.lifetime.ident),
        }).collect()
    }
    /// a type that can be written down at the call
    fn sayable(&self, t: &str) -> bool {
        let g = self.generics();
        !t.contains("impl ") && !t.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '\'')).any(|w| g.contains(w) || (w.starts_with('\'') && w != "'static"))
    }
}

// ----- what a body does -----

#[derive(Default)]
struct Look {
    /// `return` or `?` outside closures
    ctrl: bool,
    binds: BTreeSet<String>,
    /// a macro whose tokens are no expressions
    odd: bool,
    calls: BTreeSet<String>,
    has_self_type: bool,
}

impl<'a> Visit<'a> for Look {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ctrl = true;
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.ctrl = true;
        visit::visit_expr_try(self, r)
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let old = self.ctrl;
        visit::visit_expr_closure(self, c);
        self.ctrl = old;
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
            self.binds.insert(n);
        }
        visit::visit_pat_ident(self, p)
    }
    fn visit_path(&mut self, p: &'a Path) {
        if p.segments.first().map_or(false, |s| s.ident == "Self") {
            self.has_self_type = true;
        }
        if let Some(s) = p.segments.last() {
            self.calls.insert(s.ident.to_string());
        }
        visit::visit_path(self, p)
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.calls.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m)
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "select" {
            self.odd = true;
        }
        for e in macro_exprs(m) {
            self.visit_expr(&e);
        }
        if n == "bail" || n == "ensure" || n == "ready" {
            self.ctrl = true;
        }
        if n == "matches" {
            self.odd |= m.parse_body::<Matches>().is_err();
        }
    }
}

struct Matches(Expr, Option<Expr>);
impl parse::Parse for Matches {
    fn parse(input: parse::ParseStream) -> syn::Result<Self> {
        let e = input.parse()?;
        input.parse::<Token![,]>()?;
        Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            input.parse::<Token![if]>()?;
            Some(input.parse()?)
        } else {
            None
        };
        let _ = input.parse::<Token![,]>();
        Ok(Matches(e, g))
    }
}

/// The expressions among a macro's arguments.
fn macro_exprs(m: &Macro) -> Vec<Expr> {
    if let Ok(v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
        return v.into_iter().collect();
    }
    if let Ok(x) = m.parse_body::<Matches>() {
        return std::iter::once(x.0).chain(x.1).collect();
    }
    vec![]
}

fn look_block(b: &Block) -> Look {
    let mut l = Look::default();
    l.visit_block(b);
    l
}
fn look_expr(e: &Expr) -> Look {
    let mut l = Look::default();
    l.visit_expr(e);
    l
}
fn look_stmt(s: &Stmt) -> Look {
    let mut l = Look::default();
    l.visit_stmt(s);
    l
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}

/// Ranges of the expressions whose value is the value of `e`.
fn tails(e: &Expr, out: &mut Vec<(usize, usize)>) {
    match e {
        Expr::Block(b) => block_tails(&b.block, out),
        Expr::Paren(p) => tails(&p.expr, out),
        Expr::If(i) => {
            block_tails(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tails(e, out);
            }
        }
        Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, out)),
        e => out.push(range(e)),
    }
}
fn block_tails(b: &Block, out: &mut Vec<(usize, usize)>) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        tails(e, out);
    }
}

// ----- the calls -----

struct Site {
    whole: (usize, usize),
    args: Vec<Expr>,
    name: String,
    /// `self` for a method, a type for an associated function
    recv: Option<String>,
    at: Option<Expr>,
    awaited: bool,
    question: Option<(usize, usize)>,
    tail: bool,
    nested: bool,
    ret: String,
    of: Option<String>,
    /// the function the call is in, by range
    within: (usize, usize),
    /// more than the name of the type comes before the name
    path: bool,
    error: Option<String>,
    /// the future of a `select!` branch
    branch: bool,
}

struct Finder<'n> {
    names: &'n BTreeSet<String>,
    sites: Vec<Site>,
    tails: Vec<(usize, usize)>,
    ret: String,
    of: Option<String>,
    error: Option<String>,
    nested: usize,
    within: (usize, usize),
    branch: bool,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"))
}

impl<'n> Finder<'n> {
    fn site(&mut self, e: &Expr, awaited: bool, question: Option<(usize, usize)>, whole: (usize, usize)) -> bool {
        let mut path = false;
        let mut at = None;
        let (name, args, recv) = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let n = p.path.segments.last().unwrap();
                    let lead: Vec<String> = p.path.segments.iter().rev().skip(1).map(|s| s.ident.to_string()).collect();
                    if !n.arguments.is_empty() {
                        return false;
                    }
                    path = lead.len() > 1 || lead.first().map_or(false, |l| l.starts_with(char::is_lowercase));
                    (n.ident.to_string(), c.args.iter().cloned().collect::<Vec<_>>(), lead.first().cloned())
                }
                _ => return false,
            },
            Expr::MethodCall(m) if m.turbofish.is_none() => {
                let r = squeeze(&m.receiver);
                if r != "self" && !place(&m.receiver) {
                    return false;
                }
                if r != "self" {
                    at = Some((*m.receiver).clone());
                }
                (m.method.to_string(), m.args.iter().cloned().collect(), Some(if r == "self" { "self" } else { "." }.into()))
            }
            _ => return false,
        };
        if !self.names.contains(&name) {
            return false;
        }
        self.sites.push(Site {
            whole,
            args,
            name,
            recv,
            at,
            awaited,
            path,
            question,
            tail: self.tails.contains(&question.unwrap_or(whole)) && question.is_none(),
            nested: self.nested > 0,
            ret: self.ret.clone(),
            of: self.of.clone(),
            within: self.within,
            error: self.error.clone(),
            branch: self.branch,
        });
        true
    }
    fn function(&mut self, sig: &Signature, b: &Block, within: (usize, usize)) {
        let old = (std::mem::take(&mut self.tails), self.ret.clone(), self.within);
        self.ret = match &sig.output {
            ReturnType::Default => "()".into(),
            ReturnType::Type(_, t) => t.to_token_stream().to_string(),
        };
        self.within = within;
        block_tails(b, &mut self.tails);
        self.visit_block(b);
        self.tails = old.0;
        self.ret = old.1;
        self.within = old.2;
    }
}

impl<'a, 'n> Visit<'a> for Finder<'n> {
    fn visit_item_mod(&mut self, i: &'a ItemMod) {
        if !is_test(&i.attrs) {
            visit::visit_item_mod(self, i);
        }
    }
    fn visit_item_fn(&mut self, i: &'a ItemFn) {
        self.function(&i.sig, &i.block, range(i));
    }
    fn visit_item_impl(&mut self, i: &'a ItemImpl) {
        let old = (self.of.clone(), self.error.clone());
        self.of = Some(squeeze(&i.self_ty));
        self.error = i.items.iter().find_map(|x| match x {
            ImplItem::Type(t) if t.ident == "Error" => Some(t.ty.to_token_stream().to_string()),
            _ => None,
        });
        visit::visit_item_impl(self, i);
        self.of = old.0;
        self.error = old.1;
    }
    fn visit_impl_item_fn(&mut self, i: &'a ImplItemFn) {
        self.function(&i.sig, &i.block, range(i));
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.nested += 1;
        visit::visit_expr_closure(self, c);
        self.nested -= 1;
    }
    fn visit_expr_async(&mut self, c: &'a ExprAsync) {
        self.nested += 1;
        visit::visit_expr_async(self, c);
        self.nested -= 1;
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        if let (Some(e), 0) = (&r.expr, self.nested) {
            tails(e, &mut self.tails);
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        let found = match e {
            Expr::Try(t) => match unparen(&t.expr) {
                Expr::Await(a) => self.site(unparen(&a.base), true, Some(range(e)), range(&t.expr)),
                x => self.site(x, false, Some(range(e)), range(&t.expr)),
            },
            Expr::Await(a) => self.site(unparen(&a.base), true, None, range(e)),
            e => self.site(e, false, None, range(e)),
        };
        if !found {
            visit::visit_expr(self, e)
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.segments.last().map_or(false, |s| s.ident == "select") {
            if let Ok(s) = m.parse_body::<Sel>() {
                for b in &s.branches {
                    self.branch = true;
                    self.nested += 1;
                    self.visit_expr(&b.fut);
                    self.nested -= 1;
                    self.branch = false;
                    if let Some(c) = &b.cond {
                        self.visit_expr(c);
                    }
                    self.visit_expr(&b.body);
                }
            }
            return;
        }
        for e in macro_exprs(m) {
            self.visit_expr(&e);
        }
    }
}

// ----- the body at the call -----

/// Uses of a parameter.
struct Uses<'p> {
    name: &'p str,
    /// (range, text of what stands for it)
    found: Vec<((usize, usize), Use)>,
}
#[derive(Clone, Copy, PartialEq)]
enum Use {
    Receiver,
    Deref,
    Alone,
}
impl<'p> Uses<'p> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(self.name))
    }
}
impl<'a, 'p> Visit<'a> for Uses<'p> {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => self.found.push((range(e), Use::Deref)),
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                self.found.push((range(&m.receiver), Use::Receiver));
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            Expr::Field(f) if self.is(&f.base) => self.found.push((range(&f.base), Use::Receiver)),
            Expr::Index(i) if self.is(&i.expr) => {
                self.found.push((range(&i.expr), Use::Receiver));
                self.visit_expr(&i.index);
            }
            e if self.is(e) => self.found.push((range(e), Use::Alone)),
            e => visit::visit_expr(self, e),
        }
    }
    fn visit_field_value(&mut self, f: &'a FieldValue) {
        if f.colon_token.is_none() && self.is(&f.expr) {
            // `S { p }`
            self.found.push(((range(&f.expr).1, range(&f.expr).1), Use::Alone));
            return;
        }
        visit::visit_field_value(self, f)
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for e in macro_exprs(m) {
            match &e {
                Expr::Assign(a) => self.visit_expr(&a.right),
                e => self.visit_expr(e),
            }
        }
    }
}

/// A place: a path or fields of one.
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn root(e: &Expr) -> String {
    match e {
        Expr::Field(f) => root(&f.base),
        e => squeeze(e),
    }
}

struct Maker {
    ed: Edits,
}

impl Maker {
    fn show<T: Spanned>(&self, t: &T) -> String {
        let (s, e) = range(t);
        self.ed.render(s, e)
    }

    fn inside(&self, b: &Block) -> String {
        let (s, e) = range(b);
        self.ed.render(s + 1, e - 1)
    }

    /// The block with its early returns turned into branches.
    fn tailify(&self, stmts: &[Stmt]) -> Option<String> {
        let (s, rest) = match stmts.split_first() {
            None => return Some(String::new()),
            Some(x) => x,
        };
        if !look_stmt(s).ctrl {
            return Some(format!("{}\n{}", self.show(s), self.tailify(rest)?));
        }
        match s {
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !rest.is_empty() && !look_expr(&i.cond).ctrl && leaves(&i.then_branch) => {
                Some(format!("if {} {{ {} }} else {{ {} }}", self.show(&i.cond), self.tailify(&i.then_branch.stmts)?, self.tailify(rest)?))
            }
            Stmt::Expr(e, None) if rest.is_empty() => self.tail(e),
            Stmt::Expr(Expr::Return(r), _) => Some(r.expr.as_ref().map_or("()".into(), |e| self.show(e))),
            Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                if let Some((_, d)) = &i.diverge {
                    if look_expr(&i.expr).ctrl {
                        return None;
                    }
                    let d = match &**d {
                        Expr::Block(b) if leaves(&b.block) => self.tailify(&b.block.stmts)?,
                        _ => return None,
                    };
                    return Some(format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", self.show(&i.expr), self.show(&l.pat), self.tailify(rest)?, d));
                }
                match &*i.expr {
                    Expr::Match(m) if !look_expr(&m.expr).ctrl => {
                        let stay: Vec<usize> = (0..m.arms.len()).filter(|k| !look_expr(&m.arms[*k].body).ctrl).collect();
                        if stay.len() != 1 || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| look_expr(&g.1).ctrl)) {
                            return None;
                        }
                        let mut t = format!("match {} {{ ", self.show(&m.expr));
                        for (k, a) in m.arms.iter().enumerate() {
                            let g = a.guard.as_ref().map_or(String::new(), |g| format!("if {}", self.show(&g.1)));
                            let b = if k == stay[0] {
                                format!("let {} = {}; {}", self.show(&l.pat), self.show(&a.body), self.tailify(rest)?)
                            } else {
                                match &*a.body {
                                    Expr::Return(r) => r.expr.as_ref().map_or("()".into(), |e| self.show(e)),
                                    Expr::Block(b) if leaves(&b.block) => self.tailify(&b.block.stmts)?,
                                    _ => return None,
                                }
                            };
                            t.push_str(&format!("{} {} => {{ {} }} ", self.show(&a.pat), g, b));
                        }
                        Some(t + "}")
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn tail(&self, e: &Expr) -> Option<String> {
        if !look_expr(e).ctrl {
            return Some(self.show(e));
        }
        match e {
            Expr::Return(r) => Some(r.expr.as_ref().map_or("()".into(), |e| self.show(e))),
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) => Some(format!("{{ {} }}", self.tailify(&b.block.stmts)?)),
            Expr::If(i) if !look_expr(&i.cond).ctrl => {
                let (_, o) = i.else_branch.as_ref()?;
                Some(format!("if {} {{ {} }} else {{ {} }}", self.show(&i.cond), self.tailify(&i.then_branch.stmts)?, self.tail(o)?))
            }
            Expr::Match(m) if !look_expr(&m.expr).ctrl => {
                let mut t = format!("match {} {{ ", self.show(&m.expr));
                for a in &m.arms {
                    let g = match &a.guard {
                        Some(g) if look_expr(&g.1).ctrl => return None,
                        Some(g) => format!("if {}", self.show(&g.1)),
                        None => String::new(),
                    };
                    t.push_str(&format!("{} {} => {{ {} }} ", self.show(&a.pat), g, self.tail(&a.body)?));
                }
                Some(t + "}")
            }
            _ => None,
        }
    }
}

/// Its last statement is a `return`.
fn leaves(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

/// The error type of a result type, as written or by what it is known to be.
fn error_of(t: &str, own: &Option<String>) -> Option<String> {
    let t = t.replace(' ', "");
    let t = match own {
        Some(o) => t.replace("Self::Error", &o.replace(' ', "")),
        None => t,
    };
    let head = t.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
    let io = |e: &str| if e == "IOError" || e == "std::io::Error" || e == "io::Error" { "io".to_string() } else { e.to_string() };
    if head == "IOResult" || t.starts_with("io::Result<") || t.starts_with("std::io::Result<") {
        return Some("io".into());
    }
    if head == "AnyResult" {
        return Some("anyhow".into());
    }
    if head == "Option" {
        return Some("option".into());
    }
    if head != "Result" {
        return None;
    }
    let inner = t[t.find('<')? + 1..t.len() - 1].to_string();
    let mut depth = 0;
    let mut at = None;
    for (i, c) in inner.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => at = Some(i),
            _ => {}
        }
    }
    match at {
        Some(i) => Some(io(inner[i + 1..].trim_end_matches(','))),
        None => Some(format!("default of {}", t.split('<').next().unwrap())),
    }
}

fn expand(text: &str, h: &Helper, s: &Site) -> Option<String> {
    if s.branch || s.awaited != h.sig.asyncness.is_some() || h.sig.unsafety.is_some() {
        return None;
    }
    match (h.method(), s.recv.as_deref()) {
        (false, _) if h.from.is_some() => {}
        (_, Some(_)) if s.path => return None,
        (true, Some("self")) if h.of == s.of => {}
        (true, Some(".")) => {}
        (false, None) if h.of.is_none() => {}
        (false, Some("self")) if h.of.is_none() => return None,
        (false, Some(t)) if h.of.is_some() && (t == "Self" || Some(t) == h.of.as_deref()) => {}
        _ => return None,
    }
    let l = look_block(&h.block);
    if l.odd || l.calls.contains(&h.name) || (l.has_self_type && h.of != s.of) {
        return None;
    }
    if let Some(r) = h.sig.receiver() {
        if r.colon_token.is_some() || r.reference.is_none() {
            return None;
        }
    }
    let own = h.from.as_ref().map_or(text, |f| f.1.as_str());
    let mut m = Maker { ed: Edits::new(own.to_string()) };
    let here = |r: (usize, usize)| &text[r.0..r.1];
    let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(t) => Some(t),
        _ => None,
    }).collect();
    if params.len() != s.args.len() {
        return None;
    }
    let (mut first, mut then) = (String::new(), String::new());
    if let Some(a) = &s.at {
        // the receiver is a place: it stands for `self`
        let mode = if h.sig.receiver()?.mutability.is_some() { "&mut " } else { "&" };
        let mut u = Uses { name: "self", found: vec![] };
        u.visit_block(&h.block);
        let used = tokens_of(&h.block).iter().filter(|t| *t == "self").count();
        if l.has_self_type || l.binds.contains(&root(a)) || params.iter().any(|q| squeeze(&q.pat) == root(a)) || used != u.found.len() {
            return None;
        }
        let t = here(range(a)).to_string();
        for (r, k) in &u.found {
            let x = match k {
                Use::Alone => format!("{}{}", mode, t),
                _ => t.clone(),
            };
            m.ed.replace(r.0, r.1, x);
        }
    }
    for (i, (p, a)) in params.iter().zip(&s.args).enumerate() {
        let ty = p.ty.to_token_stream().to_string();
        let simple = match &*p.pat {
            Pat::Ident(n) if n.mutability.is_none() && n.by_ref.is_none() && n.subpat.is_none() => Some(n.ident.to_string()),
            _ => None,
        };
        if let Some(n) = &simple {
            let mut u = Uses { name: n, found: vec![] };
            u.visit_block(&h.block);
            let (pl, mode) = match unparen(a) {
                Expr::Reference(r) => (&*r.expr, if r.mutability.is_some() { 2 } else { 1 }),
                e => (e, 0),
            };
            let lit = mode == 0 && matches!(pl, Expr::Lit(_));
            let used = tokens_of(&h.block).iter().filter(|t| *t == n).count();
            if !l.binds.contains(n) && ((place(pl) && !l.binds.contains(&root(pl)) && !params.iter().any(|q| squeeze(&q.pat) == root(pl) && squeeze(&q.pat) != *n)) || lit) && used == u.found.len() {
                let t = here(range(pl)).to_string();
                // a reference handed on by value may be moved: only where it is reborrowed by its use
                let reborrow = mode == 0 && matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some()) && !lit;
                for (r, k) in &u.found {
                    let (r, short) = (*r, r.0 == r.1);
                    let x = match (mode, k) {
                        (1, Use::Alone) => format!("&{}", t),
                        (2, Use::Alone) => format!("&mut {}", t),
                        (1, Use::Deref) | (2, Use::Deref) => t.clone(),
                        (0, Use::Deref) => format!("*{}", t),
                        (0, Use::Alone) if reborrow => format!("&mut *{}", t),
                        _ => t.clone(),
                    };
                    if short {
                        m.ed.insert(r.0, format!(": {}", x));
                    } else {
                        m.ed.replace(r.0, r.1, x);
                    }
                }
                continue;
            }
        }
        if h.sayable(&ty) {
            first.push_str(&format!("let vx_i{}: {} = {}; ", i, ty, here(range(a))));
        } else {
            first.push_str(&format!("let vx_i{} = {}; ", i, here(range(a))));
        }
        then.push_str(&format!("let {} = vx_i{}; ", &own[range(&p.pat).0..range(&p.pat).1], i));
    }
    let scope = h.from.as_ref().map_or(String::new(), |f| format!("#[allow(unused_imports)] use crate{}::*; ", if f.0.is_empty() { String::new() } else { format!("::{}", f.0) }));
    let lets = scope + &first + &then;
    let same_error = error_of(&h.ret(), &s.error).is_some() && error_of(&h.ret(), &s.error) == error_of(&s.ret, &s.error);
    let typed = error_of(&h.ret(), &None).is_some() && h.sayable(&h.ret());
    // returns that are not of an error: only with the whole result
    if s.question.is_some() && same_error && !s.nested {
        let option = error_of(&h.ret(), &s.error).as_deref() == Some("option");
        struct Rets(Vec<bool>);
        impl<'a> Visit<'a> for Rets {
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
            fn visit_expr_return(&mut self, r: &'a ExprReturn) {
                self.0.push(r.expr.as_ref().map_or(false, |e| {
                    let t = squeeze(e);
                    t.starts_with("Err(") || t == "None"
                }));
                visit::visit_expr_return(self, r)
            }
        }
        let mut r = Rets(vec![]);
        r.visit_block(&h.block);
        if r.0.iter().all(|x| *x) {
            let mut ts = vec![];
            block_tails(&h.block, &mut ts);
            struct At<'x>(&'x [(usize, usize)], Vec<Expr>);
            impl<'a, 'x> Visit<'a> for At<'x> {
                fn visit_expr(&mut self, e: &'a Expr) {
                    if self.0.contains(&range(e)) {
                        self.1.push(e.clone());
                    }
                    visit::visit_expr(self, e)
                }
            }
            let mut at = At(&ts, vec![]);
            at.visit_block(&h.block);
            for e in at.1 {
                let (a, b) = range(&e);
                match &e {
                    Expr::Call(c) if c.args.len() == 1 && matches!(squeeze(&c.func).as_str(), "Ok" | "Some") => {
                        let (x, y) = range(&c.args[0]);
                        if squeeze(&c.args[0]) == "()" {
                            m.ed.replace(a, b, "()".into());
                        } else {
                            m.ed.push_cut(a, x);
                            m.ed.push_cut(y, b);
                        }
                    }
                    Expr::Call(c) if squeeze(&c.func) == "Err" => m.ed.insert_front(a, "return ".into()),
                    e if option && squeeze(e) == "None" => m.ed.insert_front(a, "return ".into()),
                    Expr::Return(_) => {}
                    _ => {
                        m.ed.insert_front(a, "(".into());
                        m.ed.insert(b, ")?".into());
                    }
                }
            }
            return Some(format!("\u{0}({{ {}{} }})", lets, m.inside(&h.block)));
        }
    }
    if !l.ctrl {
        return Some(if typed && !s.tail {
            format!("({{ {}let vx_r: {} = {{ {} }}; vx_r }})", lets, h.ret(), m.inside(&h.block))
        } else {
            format!("{{ {}{} }}", lets, m.inside(&h.block))
        });
    }
    if s.tail && !s.nested && (squeeze_text(&h.ret()) == squeeze_text(&s.ret) || same_error) {
        return Some(format!("{{ {}{} }}", lets, m.inside(&h.block)));
    }
    let t = m.tailify(&h.block.stmts)?;
    Some(if typed {
        format!("({{ {}let vx_r: {} = {{ {} }}; vx_r }})", lets, h.ret(), t)
    } else {
        format!("({{ {}{} }})", lets, t)
    })
}

fn squeeze_text(t: &str) -> String {
    t.replace(' ', "")
}

pub fn tokens_of<T: ToTokens>(t: &T) -> Vec<String> {
    fn go(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                t => out.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    go(t.to_token_stream(), &mut v);
    v
}

fn helpers(ast: &File, names: &BTreeSet<String>) -> Vec<Helper> {
    let mut v = vec![];
    for i in &ast.items {
        match i {
            Item::Fn(f) if names.contains(&f.sig.ident.to_string()) && !is_test(&f.attrs) => {
                v.push(Helper { name: f.sig.ident.to_string(), sig: f.sig.clone(), block: (*f.block).clone(), item: range(f), of: None, from: None })
            }
            Item::Impl(m) if m.trait_.is_none() => {
                for x in &m.items {
                    if let ImplItem::Fn(f) = x {
                        if names.contains(&f.sig.ident.to_string()) {
                            v.push(Helper { name: f.sig.ident.to_string(), sig: f.sig.clone(), block: f.block.clone(), item: range(f), of: Some(squeeze(&m.self_ty)), from: None })
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

/// The function is named other than by a call this file has been searched for.
fn mentioned(ast: &File, h: &Helper) -> bool {
    struct M<'h>(&'h Helper, bool);
    impl<'a, 'h> Visit<'a> for M<'h> {
        fn visit_path(&mut self, p: &'a Path) {
            let lead = p.segments.len() > 1;
            self.1 |= p.segments.last().map_or(false, |s| s.ident == self.0.name) && (lead || self.0.of.is_none());
            visit::visit_path(self, p)
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.1 |= m.method == self.0.name && self.0.of.is_some();
            visit::visit_expr_method_call(self, m)
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            self.1 |= tokens_of(m).contains(&self.0.name);
        }
        fn visit_item_use(&mut self, u: &'a ItemUse) {
            self.1 |= tokens_of(u).contains(&self.0.name);
        }
    }
    let mut m = M(h, false);
    m.visit_file(ast);
    m.1
}

/// The text with calls of the functions in `names` replaced by their bodies, and what was done.
/// `outer`: the modules around this one and their texts.
fn apply(text: String, names: &BTreeSet<String>, done: &mut BTreeSet<String>, outer: &[(String, String)]) -> String {
    let mut text = text;
    if names.is_empty() {
        return text;
    }
    let mut bad: BTreeSet<(String, String)> = BTreeSet::new();
    for _ in 0..200 {
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(_) => return text,
        };
        let mut hs = helpers(&ast, names);
        for (m, t) in outer {
            if let Ok(a) = syn::parse_file(t) {
                for mut h in helpers(&a, names) {
                    if h.of.is_none() {
                        h.from = Some((m.clone(), t.clone()));
                        h.item = (0, 0);
                        hs.push(h);
                    }
                }
            }
        }
        let known: BTreeSet<String> = hs.iter().map(|h| h.name.clone()).filter(|n| hs.iter().filter(|h| h.name == *n).count() == 1).collect();
        let mut f = Finder { names: &known, sites: vec![], tails: vec![], ret: "()".into(), of: None, error: None, nested: 0, within: (0, 0), branch: false };
        f.visit_file(&ast);
        // `return`s inside are only known as tails after the walk
        let mut next = None;
        for s in &f.sites {
            let h = hs.iter().find(|h| h.name == s.name).unwrap();
            let id = (s.name.clone(), text[s.whole.0..s.whole.1].to_string());
            if (h.from.is_none() && s.within == h.item) || bad.contains(&id) || (s.at.is_some() && !names.contains(&format!(".{}", s.name))) {
                continue;
            }
            match expand(&text, h, s) {
                Some(t) => {
                    next = Some((s.whole, s.question, t, h.name.clone()));
                    break;
                }
                None => {
                    bad.insert(id);
                }
            }
        }
        match next {
            Some((whole, question, t, name)) => {
                done.insert(name);
                let (r, t) = match t.strip_prefix('\u{0}') {
                    // the question mark goes with the call
                    Some(t) => (question.unwrap(), t.to_string()),
                    None => (whole, t),
                };
                text.replace_range(r.0..r.1, &t);
                if syn::parse_file(&text).is_err() {
                    return text;
                }
            }
            None => return text,
        }
    }
    text
}

/// The sources under `dir`, by path, after replacing calls of the functions in `names`, and the names done.
pub fn texts(dir: &FsPath, names: &BTreeSet<String>) -> (BTreeMap<PathBuf, String>, BTreeSet<String>) {
    let mut all: BTreeMap<PathBuf, (String, String)> = BTreeMap::new();
    let mut todo = vec![(dir.to_path_buf(), String::new())];
    while let Some((d, m)) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            let n = p.file_stem().map_or(String::new(), |n| n.to_string_lossy().into_owned());
            let inner = if m.is_empty() { n.clone() } else { format!("{}::{}", m, n) };
            if p.is_dir() {
                todo.push((p, inner));
            } else if p.extension().map_or(false, |x| x == "rs") {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    all.insert(p, (if n == "lib" || n == "mod" { m.clone() } else { inner }, t));
                }
            }
        }
    }
    let mut done = BTreeSet::new();
    let mut res: BTreeMap<PathBuf, String> = BTreeMap::new();
    for (p, (m, t)) in &all {
        let outer: Vec<(String, String)> = all.values().filter(|(o, _)| o != m && (o.is_empty() || m.starts_with(&format!("{}::", o)))).cloned().collect();
        res.insert(p.clone(), apply(t.clone(), names, &mut done, &outer));
    }
    // those nobody calls any more
    let mut gone = true;
    while gone {
        gone = false;
        let asts: Vec<(PathBuf, File)> = res.iter().filter_map(|(p, t)| syn::parse_file(t).ok().map(|a| (p.clone(), a))).collect();
        for (p, a) in &asts {
            for h in helpers(a, &done) {
                if !gone && !asts.iter().any(|(_, a)| mentioned(a, &h)) {
                    res.get_mut(p).unwrap().replace_range(h.item.0..h.item.1, "");
                    gone = true;
                }
            }
        }
    }
    (res.into_iter().map(|(p, t)| (p, crate::norm::normal(t))).collect(), done)
}
