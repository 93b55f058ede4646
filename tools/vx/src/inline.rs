//! Calls of functions that have no contract of their own - helpers - are replaced by what they do, so that the
//! caller's contract decides them too. A call becomes a block that binds the parameters (or has the arguments in
//! their place) and ends in the helper's result. What does not fit is left alone: the caller then names a function
//! that is not in the verified text and is reported as outside the verifier's reach.
use proc_macro2::{TokenStream, TokenTree, Group, Ident};
use quote::{quote, format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use crate::desugar::e;

#[derive(Clone)]
pub struct Helper { pub module: String, pub owner: Option<String>, pub recv: Option<Receiver>, pub params: Vec<(Pat, Option<Type>)>, pub body: Expr, pub generics: Generics, pub ret: String }

#[derive(Default, Clone)]
pub struct Helpers { pub by: BTreeMap<String, Vec<Helper>>, pub taken: BTreeSet<String> }

fn txt(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }

impl Helpers {
    pub fn add(&mut self, module: &str, owner: Option<String>, sig: &Signature, block: &Block) {
        let mut recv = None;
        let mut params = vec![];
        for a in &sig.inputs { match a { FnArg::Receiver(r) => recv = Some(r.clone()), FnArg::Typed(t) => params.push(((*t.pat).clone(), Some((*t.ty).clone()))) } }
        let ret = match &sig.output { ReturnType::Default => "()".into(), ReturnType::Type(_, t) => txt(t) };
        let b = if block.stmts.len() == 1 { if let Stmt::Expr(x, None) = &block.stmts[0] { x.clone() } else { e(quote!(#block)) } } else { e(quote!(#block)) };
        if sig.asyncness.is_some() || sig.unsafety.is_some() { return; }
        self.by.entry(sig.ident.to_string()).or_default().push(Helper { module: module.into(), owner, recv, params, body: b, generics: sig.generics.clone(), ret });
    }
}

/// `return` or `?` that leaves the expression.
fn leaves(x: &Expr) -> (bool, bool) {
    struct V(bool, bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) { let s = r.expr.as_ref().map(|x| txt(x)).unwrap_or_default(); if !s.starts_with("Err(") { self.0 = true } visit::visit_expr_return(self, r); self.1 = true; }
        fn visit_expr_try(&mut self, t: &'a ExprTry) { self.1 = true; visit::visit_expr_try(self, t) }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false, false);
    v.visit_expr(x);
    (v.0, v.1)
}
/// Every name a pattern in there binds.
fn bound(x: &Expr) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) } fn visit_macro(&mut self, m: &'a Macro) { if m.path.is_ident("matches") { words(m.tokens.clone(), &mut self.0) } } }
    let mut v = V(Default::default());
    v.visit_expr(x);
    v.0
}
fn words(t: TokenStream, o: &mut BTreeSet<String>) { for t in t { match t { TokenTree::Ident(i) => { o.insert(i.to_string()); } TokenTree::Group(g) => words(g.stream(), o), _ => {} } } }
fn mentions(x: impl ToTokens) -> BTreeSet<String> { let mut o = Default::default(); words(x.to_token_stream(), &mut o); o }

fn uses(x: &Expr, n: &str) -> usize { fn go(t: TokenStream, n: &str) -> usize { t.into_iter().map(|t| match t { TokenTree::Ident(i) => (i == n) as usize, TokenTree::Group(g) => go(g.stream(), n), _ => 0 }).sum() } go(x.to_token_stream(), n) }

/// An expression that may stand in a parameter's place: naming something, with no effect of its own.
fn simple(x: &Expr) -> bool {
    match x {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        Expr::MethodCall(m) => m.args.is_empty() && matches!(m.method.to_string().as_str(), "inputs" | "outputs" | "witnesses" | "storage_slots" | "len" | "as_ref" | "as_slice") && simple(&m.receiver),
        _ => false,
    }
}

struct Sub<'a> { name: &'a str, with: &'a Expr }
impl<'a> Sub<'a> {
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let w = self.with;
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut o = TokenStream::new();
        for k in 0..v.len() {
            match &v[k] {
                TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); o.extend([TokenTree::Group(n)]) }
                TokenTree::Ident(i) if i == self.name && !(k > 0 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == '.') && !(k > 1 && matches!(&v[k - 2], TokenTree::Punct(p) if p.as_char() == '.'))) => o.extend(if matches!(w, Expr::Path(_)) { quote!(#w) } else { quote!((#w)) }),
                t => o.extend([t.clone()]),
            }
        }
        o
    }
}
impl<'a> VisitMut for Sub<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(m.tokens.clone()); }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && matches!(&f.expr, Expr::Path(p) if p.path.is_ident(self.name)) { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        let w = self.with;
        if let Expr::Unary(u) = x { if matches!(u.op, UnOp::Deref(_)) { if let (Expr::Path(p), Expr::Reference(r)) = (&*u.expr, w) { if p.path.is_ident(self.name) { let i = &r.expr; *x = e(quote!(#i)); return; } } } }
        if let Expr::MethodCall(m) = x { if let (Expr::Path(p), Expr::Reference(r)) = (&*m.receiver, w) { if p.path.is_ident(self.name) && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_)) { *m.receiver = (*r.expr).clone(); for a in m.args.iter_mut() { self.visit_expr_mut(a) } return; } } }
        if let Expr::Field(m) = x { if let (Expr::Path(p), Expr::Reference(r)) = (&*m.base, w) { if p.path.is_ident(self.name) { *m.base = (*r.expr).clone(); return; } } }
        if let Expr::Path(p) = x { if p.qself.is_none() && p.path.is_ident(self.name) { *x = match w { Expr::Path(_) | Expr::Field(_) | Expr::Lit(_) | Expr::MethodCall(_) => w.clone(), w => e(quote!((#w))) }; return; } }
        visit_mut::visit_expr_mut(self, x)
    }
}
/// Calls of a parameter that is a closure.
struct Beta<'a> { name: &'a str, with: &'a ExprClosure, left: bool }
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        if let Expr::Call(c) = x { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
            match beta(self.with, &c.args.iter().cloned().collect::<Vec<_>>(), 0) { Some(n) => *x = n, None => self.left = true }
            return;
        } }
        if let Expr::Path(p) = x { if p.path.is_ident(self.name) { *x = Expr::Closure(self.with.clone()); } }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) { self.visit_expr_mut(&mut c.func); }
        for a in c.args.iter_mut() { self.visit_expr_mut(a) }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if mentions(&m.tokens).contains(self.name) { self.left = true } }
}
fn beta(c: &ExprClosure, args: &[Expr], pos: u8) -> Option<Expr> {
    let params: Vec<(Pat, Option<Type>)> = c.inputs.iter().map(|p| match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) }).collect();
    put(&params, None, args, (*c.body).clone(), pos, false)
}

/// The body with the arguments for the parameters; `pos`: 0 anywhere, 1 under `?`, 2 where its value is returned.
fn put(params: &[(Pat, Option<Type>)], recv: Option<(&Receiver, &Expr)>, args: &[Expr], body: Expr, pos: u8, generic: bool) -> Option<Expr> {
    if params.len() != args.len() { return None; }
    let (early, any) = leaves(&body);
    if (pos == 0 && any) || (pos == 1 && early) { return None; }
    let mut body = body;
    let inner = bound(&body);
    let writes = args.iter().any(|a| matches!(a, Expr::Reference(r) if r.mutability.is_some())) || params.iter().any(|(_, t)| matches!(t, Some(Type::Reference(r)) if r.mutability.is_some())) || matches!(recv, Some((r, _)) if r.mutability.is_some());
    let mut lets = vec![];
    if let Some((r, x)) = recv {
        if !matches!(x, Expr::Path(p) if p.path.is_ident("self")) {
            if !simple(x) || mentions(x).iter().any(|w| inner.contains(w)) || r.reference.is_none() && r.mutability.is_some() { return None; }
            Sub { name: "self", with: x }.visit_expr_mut(&mut body);
        }
    }
    let mut names: Vec<BTreeSet<String>> = args.iter().map(|a| mentions(a)).collect();
    names.push(Default::default());
    for (k, ((p, t), a)) in params.iter().zip(args).enumerate() {
        match (p, a) {
            (Pat::Ident(i), Expr::Closure(c)) => {
                let n = i.ident.to_string();
                if mentions(c).iter().any(|w| inner.contains(w)) { return None; }
                let mut b = Beta { name: &n, with: c, left: false };
                b.visit_expr_mut(&mut body);
                if b.left { return None; }
            }
            (Pat::Ident(i), a) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() && simple(a) && !inner.contains(&i.ident.to_string()) && !names[k].iter().any(|w| inner.contains(w))
                && (!writes || matches!(a, Expr::Lit(_)) || matches!(t, Some(Type::Reference(_))))
                // a name in an argument must not be the name of a parameter that is replaced after this one
                && !params[k + 1..].iter().any(|(q, _)| matches!(q, Pat::Ident(q) if names[k].contains(&q.ident.to_string()))) =>
            {
                let n = i.ident.to_string();
                Sub { name: &n, with: a }.visit_expr_mut(&mut body);
            }
            // something that goes over a list, gone over once
            (Pat::Ident(i), a) if matches!(t, Some(Type::ImplTrait(_))) => {
                let n = i.ident.to_string();
                if i.by_ref.is_some() || inner.contains(&n) || names[k].iter().any(|w| inner.contains(w)) || uses(&body, &n) != 1 || params[k + 1..].iter().any(|(q, _)| matches!(q, Pat::Ident(q) if names[k].contains(&q.ident.to_string()))) { return None; }
                Sub { name: &n, with: a }.visit_expr_mut(&mut body);
            }
            (p, a) => {
                // the parameter's name must not be one that a later argument means something else by
                let mut ps = BTreeSet::new();
                words(p.to_token_stream(), &mut ps);
                let same = matches!((p, a), (Pat::Ident(i), Expr::Path(x)) if x.path.is_ident(&i.ident));
                if !same && names[k + 1..].iter().any(|w| w.iter().any(|w| ps.contains(w))) { return None; }
                lets.push(match t { Some(t) if !generic => quote!(let #p: #t = #a;), _ => quote!(let #p = #a;) });
            }
        }
    }
    if lets.is_empty() { return Some(match &body { Expr::Block(_) | Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Match(_) | Expr::Lit(_) | Expr::Macro(_) | Expr::Field(_) | Expr::Paren(_) => body, b => e(quote!((#b))) }); }
    match &body {
        Expr::Block(b) if b.label.is_none() => { let s = &b.block.stmts; Some(e(quote!({ #(#lets)* #(#s)* }))) }
        b => Some(e(quote!({ #(#lets)* #b }))),
    }
}

pub struct Inline<'a> { pub helpers: &'a Helpers, pub local: Helpers, pub me: Option<String>, pub module: String, pub depth: u8, pub used: Vec<String>, pub ret: String }
impl<'a> Inline<'a> {
    fn pick(&self, name: &str, method: bool, owner: Option<&str>) -> Option<Helper> {
        if self.depth > 4 || self.used.len() > 60 { return None; }
        if let Some(v) = self.local.by.get(name) { if owner.is_none() && !method && v.len() == 1 { return Some(v[0].clone()); } }
        if self.helpers.taken.contains(name) && (method || owner.is_none()) { return None; }
        let v: Vec<&Helper> = self.helpers.by.get(name)?.iter().filter(|h| match owner {
            Some("Self") => h.owner.is_some() && (h.owner == self.me || self.me.is_none()),
            Some(o) => h.owner.as_deref() == Some(o) || h.owner.is_none() && (h.module == o || o == "self" || o == "super" || o == "crate"),
            None => if method { h.owner.is_some() && h.recv.is_some() } else { h.owner.is_none() },
        }).collect();
        if v.len() == 1 { return Some(v[0].clone()); }
        let w: Vec<&Helper> = v.into_iter().filter(|h| h.module == self.module || h.owner.is_some() && h.owner == self.me).collect();
        if w.len() == 1 { Some(w[0].clone()) } else { None }
    }
    fn call(&mut self, x: &Expr, pos: u8) -> Option<Expr> {
        let (h, recv, args, name): (Helper, Option<Expr>, Vec<Expr>, String) = match x {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() { return None; }
                let n = p.path.segments.last()?.ident.to_string();
                let o = if p.path.segments.len() > 1 { Some(p.path.segments[p.path.segments.len() - 2].ident.to_string()) } else { None };
                let h = self.pick(&n, false, o.as_deref())?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if h.recv.is_some() { if args.is_empty() { return None; } Some(args.remove(0)) } else { None };
                // a receiver given as an argument, by reference
                let recv = recv.map(|r| match r { Expr::Reference(r) => *r.expr, r => r });
                (h, recv, args, n)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let h = self.pick(&n, true, None)?;
                (h, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), n)
            }
            _ => return None,
        };
        if pos == 2 && h.ret != self.ret { return None; }
        let mut body = h.body.clone();
        if let Some(o) = &h.owner { if Some(o) != self.me.as_ref() { let t: Ident = format_ident!("{}", o.split('<').next().unwrap()); struct S(Ident); impl VisitMut for S { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "Self" { *i = self.0.clone() } } } S(t).visit_expr_mut(&mut body); } }
        let me = self.me.clone();
        self.depth += 1;
        let ret = std::mem::replace(&mut self.ret, h.ret.clone());
        if let Expr::Block(b) = &mut body { self.locals(&mut b.block); }
        self.tail(&mut body);
        self.visit_expr_mut(&mut body);
        self.ret = ret;
        self.me = me;
        self.depth -= 1;
        let generic = h.generics.type_params().next().is_some() || h.generics.const_params().next().is_some() || h.params.iter().any(|(_, t)| t.as_ref().map_or(false, |t| { let s = txt(t); s.contains("impl") || s.contains('\'') }));
        let out = put(&h.params, h.recv.as_ref().zip(recv.as_ref()), &args, body, pos, generic)?;
        self.used.push(name);
        Some(out)
    }
    /// Where the value of the expression is the function's.
    fn tail(&mut self, x: &mut Expr) {
        if let Some(n) = self.call(x, 2) { *x = n; return; }
        match x {
            Expr::Block(b) if b.label.is_none() => if let Some(Stmt::Expr(z, None)) = b.block.stmts.last_mut() { self.tail(z) },
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(i) => { if let Some(Stmt::Expr(z, None)) = i.then_branch.stmts.last_mut() { self.tail(z) } if let Some((_, z)) = &mut i.else_branch { self.tail(z) } }
            Expr::Match(m) => for a in &mut m.arms { self.tail(&mut a.body) },
            _ => {}
        }
    }
    /// Functions and closures of the body's own.
    fn locals(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s { Stmt::Item(Item::Fn(f)) => { let m = self.module.clone(); self.local.add(&m, None, &f.sig, &f.block) } s => keep.push(s) }
        }
        b.stmts = keep;
        // closures that are only called or handed over, and whose names mean the same throughout
        let mut k = 0;
        while k < b.stmts.len() {
            let c = match &b.stmts[k] { Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match (match pat { Pat::Type(t) => &*t.pat, p => p }, &**expr) { (Pat::Ident(i), Expr::Closure(c)) if i.by_ref.is_none() => Some((i.ident.to_string(), c.clone())), _ => None }, _ => None };
            if let Some((n, c)) = c {
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[k + 1..].to_vec() };
                let mut x = e(quote!(#rest));
                let after = bound(&x);
                let own: BTreeSet<String> = { let i = &c.inputs; mentions(quote!(#i)) };
                if !after.contains(&n) && !mentions(&c.body).iter().any(|w| after.contains(w) && !own.contains(w)) && !mentions(&c.body).contains(&n) {
                    let mut be = Beta { name: &n, with: &c, left: false };
                    be.visit_expr_mut(&mut x);
                    if !be.left { if let Expr::Block(x) = x { b.stmts.truncate(k); b.stmts.extend(x.block.stmts); self.used.push(n); continue; } }
                }
            }
            k += 1;
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        self.locals(b);
        if let Some(Stmt::Expr(z, None)) = b.stmts.last_mut() { self.tail(z) }
        self.visit_block_mut(b);
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { let r = std::mem::replace(&mut self.ret, "?".into()); visit_mut::visit_expr_closure_mut(self, c); self.ret = r; }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        if let Expr::Return(r) = x { if let Some(z) = &mut r.expr { if self.ret != "?" { self.tail(z) } } }
        if let Expr::Try(t) = x {
            if let Some(n) = self.call(&t.expr, 1) {
                // `{ .. Ok(v) }?` is `{ .. v }`
                let mut n = n;
                if let Expr::Block(b) = &mut n { if let Some(Stmt::Expr(Expr::Call(c), None)) = b.block.stmts.last() { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 {
                    let v = c.args[0].clone();
                    if txt(&v) == "()" { b.block.stmts.pop(); } else { *b.block.stmts.last_mut().unwrap() = Stmt::Expr(v, None); }
                    *x = n;
                    visit_mut::visit_expr_mut(self, x);
                    return;
                } } }
                *t.expr = n;
            }
        } else if let Some(n) = self.call(x, 0) { *x = n; }
        visit_mut::visit_expr_mut(self, x);
    }
}
