//! Body rewrites: iterator chains into loops, closures of Option/Result combinators into matches,
//! match arms with alternatives and a guard into one arm per alternative, and a few macros.
//! Every rewrite is the definition of the construct it replaces; what does not fit is left alone
//! (and the verifier then reports that it does not support it).
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx<'a> {
    pub loops: usize,
    pub texts: &'a mut Vec<String>,
    pub spec: &'a mut crate::overlay::FnSpec,
    pub discr: &'a std::collections::BTreeMap<String, TokenStream>,
    pub notes: Vec<String>,
    /// The function takes `&mut self`.
    pub mut_self: bool,
    /// What each loop is made from.
    pub heads: std::collections::BTreeMap<usize, String>,
}

pub fn e(ts: TokenStream) -> Expr { parse2(ts.clone()).unwrap_or_else(|x| panic!("{x}: {ts}")) }
fn st(ts: TokenStream) -> Vec<Stmt> { let b: Block = parse2(quote!({ #ts })).unwrap_or_else(|x| panic!("{x}: {ts}")); b.stmts }

#[derive(Clone)]
enum Ad { Map(Expr), FilterMap(Expr), Filter(Expr), Enumerate, Take(Expr), Copied, Cloned }
#[derive(Clone)]
enum Src { Iter(Expr), IterMut(Expr), Windows(Expr, Expr), Chunks(Expr, Expr), Vals(Expr) }

struct Chain { src: Src, ads: Vec<Ad>, term: Option<(String, Vec<Expr>, Option<Type>)> }

const SRC: &[&str] = &["iter", "iter_mut", "windows", "chunks", "into_iter"];
const BARRIER: &[&str] = &["unique", "dedup", "duplicates", "sorted"];
const TERMS: &[&str] = &["count", "sum", "any", "all", "for_each", "try_for_each", "fold", "collect_vec", "collect", "next", "find"];
/// Methods only iterators have.
const ONLY: &[&str] = &["filter_map", "enumerate", "for_each", "try_for_each", "fold", "collect_vec", "collect", "count", "sum", "any", "all"];

fn escapes(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
fn closure(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match e {
        Expr::Closure(c) => Some((c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(), (*c.body).clone())),
        _ => None,
    }
}
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), e => e } }

fn tyarg(m: &ExprMethodCall) -> Option<Type> {
    m.turbofish.as_ref().and_then(|t| t.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }))
}

/// Parse an iterator chain; `known` if it is certainly an iterator.
fn chain(ex: &Expr) -> Option<(Chain, bool)> {
    let m = match ex { Expr::MethodCall(m) => m, _ => return None };
    let name = m.method.to_string();
    let args: Vec<Expr> = m.args.iter().cloned().collect();
    let prior = || -> Option<(Chain, bool)> {
        match chain(&m.receiver) {
            Some((c, k)) if c.term.is_none() => Some((c, k)),
            // a materialized chain (collect_vec, unique, ...) is a source of values
            _ => Some((Chain { src: Src::Vals((*m.receiver).clone()), ads: vec![], term: None }, ONLY.contains(&name.as_str()))),
        }
    };
    let is_vals = |c: &Chain| matches!(c.src, Src::Vals(_)) && c.ads.is_empty();
    match (name.as_str(), args.len()) {
        ("iter", 0) => Some((Chain { src: Src::Iter((*m.receiver).clone()), ads: vec![], term: None }, true)),
        ("iter_mut", 0) => Some((Chain { src: Src::IterMut((*m.receiver).clone()), ads: vec![], term: None }, true)),
        ("windows", 1) => Some((Chain { src: Src::Windows((*m.receiver).clone(), args[0].clone()), ads: vec![], term: None }, true)),
        ("chunks", 1) => Some((Chain { src: Src::Chunks((*m.receiver).clone(), args[0].clone()), ads: vec![], term: None }, true)),
        ("into_iter", 0) => Some((Chain { src: Src::Vals((*m.receiver).clone()), ads: vec![], term: None }, true)),
        (b, 0) if BARRIER.contains(&b) => Some((Chain { src: Src::Vals(ex.clone()), ads: vec![], term: None }, true)),
        ("map", 1) | ("filter_map", 1) | ("filter", 1) | ("enumerate", 0) | ("take", 1) | ("copied", 0) | ("cloned", 0) => {
            let (mut c, k) = prior()?;
            let k = k || ONLY.contains(&name.as_str());
            if !k && is_vals(&c) { return None; }
            c.ads.push(match name.as_str() {
                "map" => Ad::Map(args[0].clone()),
                "filter_map" => Ad::FilterMap(args[0].clone()),
                "filter" => Ad::Filter(args[0].clone()),
                "enumerate" => Ad::Enumerate,
                "take" => Ad::Take(args[0].clone()),
                "copied" => Ad::Copied,
                _ => Ad::Cloned,
            });
            Some((c, k))
        }
        (t, _) if TERMS.contains(&t) => {
            let (mut c, k) = prior()?;
            let k = k || ONLY.contains(&t);
            if !k { return None; }
            c.term = Some((name, args, tyarg(m)));
            Some((c, true))
        }
        _ => None,
    }
}

fn apply(f: &Expr, x: Expr) -> Option<Expr> {
    match f {
        Expr::Closure(_) => {
            let (p, b) = closure(f)?;
            if p.len() != 1 { return None; }
            let p = &p[0];
            if escapes(&b) { return None; }
            Some(e(quote!({ let #p = #x; #b })))
        }
        f => Some(e(quote!(#f(#x)))),
    }
}

struct Returns;
impl VisitMut for Returns {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        if let Expr::Return(r) = x {
            let v = r.expr.as_ref().map(|v| v.to_token_stream()).unwrap_or(quote!(()));
            let s = v.to_string();
            if s.starts_with("Err") { return; }
            *x = if s == "Ok (())" { e(quote!(continue)) } else { e(quote!(match #v { Ok(_) => continue, Err(e) => return Err(e) })) };
        }
    }
}

impl<'a> Ctx<'a> {
    fn text(&mut self, s: String) -> usize { self.texts.push(s); self.texts.len() - 1 }
    fn raw(&mut self, s: Option<String>) -> TokenStream {
        match s { Some(s) if !s.trim().is_empty() => { let k = self.text(s); quote!(__vx_raw!(#k);) } _ => quote!() }
    }

    /// The loop for a chain, with the statements to run per element given the element expression.
    fn lp(&mut self, src: &Src, ads: &[Ad], k: usize, body: &mut dyn FnMut(Expr) -> Option<TokenStream>) -> Option<TokenStream> {
        let kind = match src { Src::Iter(_) => "iter", Src::IterMut(_) => "iter_mut", Src::Windows(..) => "windows", Src::Chunks(..) => "chunks", Src::Vals(_) => "vals" };
        let iso = self.iso(k);
        let term = self.heads.get(&k).cloned().unwrap_or_else(|| "each".into());
        self.heads.insert(k, format!("{kind} {term}"));
        let (s, i, x, it, t) = (format_ident!("s{k}"), format_ident!("i{k}"), format_ident!("x{k}"), format_ident!("it{k}"), format_ident!("t{k}"));
        let mut ads = ads.to_vec();
        let mut take = None;
        let mut en = false;
        // a leading take, then a leading enumerate (or the other way round)
        loop {
            match ads.first() {
                Some(Ad::Take(n)) if take.is_none() => { take = Some(n.clone()); ads.remove(0); }
                Some(Ad::Enumerate) if !en => { en = true; ads.remove(0); }
                _ => break,
            }
        }
        let first: Expr = if en { e(quote!((#i - 1, #x))) } else { e(quote!(#x)) };
        fn rest(x: Expr, ads: &[Ad], n: usize, body: &mut dyn FnMut(Expr) -> Option<TokenStream>) -> Option<TokenStream> {
            let y = format_ident!("y{n}");
            match ads.first() {
                None => body(x),
                Some(Ad::Map(f)) => { let v = apply(f, x)?; let r = rest(e(quote!(#y)), &ads[1..], n + 1, body)?; Some(quote!(let #y = #v; #r)) }
                Some(Ad::FilterMap(f)) => { let v = apply(f, x)?; let r = rest(e(quote!(#y)), &ads[1..], n + 1, body)?; Some(quote!(let __o = #v; if let Some(#y) = __o { #r })) }
                Some(Ad::Filter(f)) => { let v = apply(f, e(quote!(&#y)))?; let r = rest(e(quote!(#y)), &ads[1..], n + 1, body)?; Some(quote!(let #y = #x; let __b: bool = #v; if __b { #r })) }
                Some(Ad::Copied) => rest(e(quote!((*#x))), &ads[1..], n, body),
                Some(Ad::Cloned) => rest(e(quote!((#x.clone()))), &ads[1..], n, body),
                _ => None,
            }
        }
        let b = rest(first, &ads, 0, body)?;
        let inv = self.spec.loops.get(&k).cloned().unwrap_or_default();
        let inv = self.text(inv);
        let (ls, le) = (self.spec.ls.get(&k).cloned(), self.spec.le.get(&k).cloned());
        let (ls, le) = (self.raw(ls), self.raw(le));
        let (lb, la) = (self.spec.lb.get(&k).cloned(), self.spec.la.get(&k).cloned());
        let (lb, la) = (self.raw(lb), self.raw(la));
        let mut pre = quote!();
        let mut cond = quote!();
        if let Some(n) = take { pre = quote!(let #t: usize = #n;); cond = quote!(&& #i < #t); }
        Some(match src {
            Src::Iter(a) => quote!(let #s = (#a).vx_slice(); #pre let mut #i: usize = 0; #lb #iso while #i < #s.len() #cond { __vx_contract!(#inv); let #x = &#s[#i]; #i = #i + 1; #ls #b #le } #la),
            Src::Vals(a) => quote!(let #s = #a; #pre let mut #i: usize = 0; #lb #iso while #i < #s.len() #cond { __vx_contract!(#inv); let #x = #s[#i]; #i = #i + 1; #ls #b #le } #la),
            Src::Windows(a, n) => quote!(let #s = (#a).vx_slice(); #pre let mut #i: usize = 0; #lb #iso while #i < #s.len() && #s.len() - #i >= (#n) #cond { __vx_contract!(#inv); let #x = crate::vstub::sub(#s, #i, #i + (#n)); #i = #i + 1; #ls #b #le } #la),
            Src::Chunks(a, n) => {
                if en || !cond.is_empty() { return None; }
                quote!(let #s = (#a).vx_slice(); let mut #i: usize = 0; #lb #iso while #i < #s.len() { __vx_contract!(#inv); let __n: usize = if #s.len() - #i < (#n) { #s.len() - #i } else { #n }; let #x = crate::vstub::sub(#s, #i, #i + __n); #i = #i + __n; #ls #b #le } #la)
            }
            Src::IterMut(a) => {
                if !cond.is_empty() { return None; }
                let (p, q) = if en { (quote!(let mut #i: usize = 0;), quote!(#i = #i + 1;)) } else { (quote!(), quote!()) };
                quote!(#p #lb #iso for #x in __vx_it!(#it, #a.iter_mut()) { __vx_contract!(#inv); #q #ls #b #le } #la)
            }
        })
    }

    fn materialize(&mut self, ex: &Expr) -> Option<Expr> {
        // a barrier is a call on the collected prefix
        if let Expr::MethodCall(m) = ex {
            let n = m.method.to_string();
            if BARRIER.contains(&n.as_str()) && m.args.is_empty() {
                let f = format_ident!("{n}");
                let inner = match chain(&m.receiver) { Some((c, _)) => self.collect(&c)?, None => (*m.receiver).clone() };
                return Some(e(quote!(crate::itx::#f(#inner))));
            }
        }
        None
    }

    fn src(&mut self, s: &Src) -> Src {
        match s {
            Src::Vals(x) => match self.materialize(x) { Some(y) => Src::Vals(y), None => s.clone() },
            s => s.clone(),
        }
    }

    fn collect(&mut self, c: &Chain) -> Option<Expr> {
        if c.ads.is_empty() { if let Src::Vals(x) = &c.src { return Some(self.materialize(x).unwrap_or_else(|| x.clone())); } }
        let src = self.src(&c.src);
        let k = self.loops;
        self.loops += 1;
        self.heads.insert(k, "collect".into());
        let acc = format_ident!("acc{k}");
        let l = self.lp(&src, &c.ads, k, &mut |x| Some(quote!(#acc.push(#x);)))?;
        Some(e(quote!({ let mut #acc = Vec::new(); #l #acc })))
    }

    /// `tail`: how the value of a `try_for_each` is used: 0 as a value, 1 by `?`, 2 as the value of the function.
    fn terminal(&mut self, c: &Chain, tail: u8) -> Option<Expr> {
        let (name, args, ty) = c.term.clone()?;
        if name == "collect_vec" || name == "collect" { return self.collect(c); }
        let src = self.src(&c.src);
        if name == "next" && c.ads.is_empty() { if let Src::Vals(x) = &src { return Some(e(quote!(crate::itx::first(#x)))); } }
        let k = self.loops;
        self.loops += 1;
        if !["for_each", "try_for_each"].contains(&name.as_str()) || tail == 0 && name == "try_for_each" { self.heads.insert(k, name.clone()); }
        let acc = format_ident!("acc{k}");
        let out = match name.as_str() {
            "count" => { let l = self.lp(&src, &c.ads, k, &mut |_| Some(quote!(#acc = #acc + 1;)))?; quote!({ let mut #acc: usize = 0; #l #acc }) }
            "sum" => {
                let l = self.lp(&src, &c.ads, k, &mut |x| Some(quote!(#acc = #acc + #x;)))?;
                let t = ty.map(|t| quote!(: #t)).unwrap_or_default();
                quote!({ let mut #acc #t = 0; #l #acc })
            }
            "any" => { let l = self.lp(&src, &c.ads, k, &mut |x| { let v = apply(&args[0], x)?; Some(quote!(let __b: bool = #v; if __b { #acc = true; break; })) })?; quote!({ let mut #acc: bool = false; #l #acc }) }
            "all" => { let l = self.lp(&src, &c.ads, k, &mut |x| { let v = apply(&args[0], x)?; Some(quote!(let __b: bool = #v; if !__b { #acc = false; break; })) })?; quote!({ let mut #acc: bool = true; #l #acc }) }
            "find" => { let l = self.lp(&src, &c.ads, k, &mut |x| { let v = apply(&args[0], e(quote!(&__f)))?; Some(quote!(let __f = #x; let __b: bool = #v; if __b { #acc = Some(__f); break; })) })?; quote!({ let mut #acc = None; #l #acc }) }
            "next" => { let l = self.lp(&src, &c.ads, k, &mut |x| Some(quote!(#acc = Some(#x); break;)))?; quote!({ let mut #acc = None; #l #acc }) }
            "for_each" => { let l = self.lp(&src, &c.ads, k, &mut |x| { let v = apply(&args[0], x)?; Some(quote!(let _ = #v;)) })?; quote!({ #l }) }
            "fold" => {
                let init = &args[0];
                let (ps, b) = closure(&args[1])?;
                if ps.len() != 2 || escapes(&b) { return None; }
                let (p0, p1) = (&ps[0], &ps[1]);
                let l = self.lp(&src, &c.ads, k, &mut |x| Some(quote!(#acc = { let #p0 = #acc; let #p1 = #x; #b };)))?;
                quote!({ let mut #acc = #init; #l #acc })
            }
            "try_for_each" => {
                let (ps, mut b) = match closure(&args[0]) { Some(x) => x, None => { let f = &args[0]; (vec![parse_quote_pat(quote!(__z))], e(quote!(#f(__z)))) } };
                if ps.len() != 1 { return None; }
                let p = &ps[0];
                if tail == 0 {
                    if escapes(&b) { return None; }
                    let l = self.lp(&src, &c.ads, k, &mut |x| Some(quote!(let __r = { let #p = #x; #b }; if __r.is_err() { #acc = __r; break; })))?;
                    quote!({ let mut #acc = Ok(()); #l #acc })
                } else {
                    if matches!(src, Src::IterMut(_)) && escapes(&b) { return None; }
                    Returns.visit_expr_mut(&mut b);
                    let l = self.lp(&src, &c.ads, k, &mut |x| Some(quote!(let #p = #x; match #b { Ok(_) => {} Err(e) => return Err(e) })))?;
                    if tail == 1 { quote!({ #l }) } else { quote!({ #l Ok(()) }) }
                }
            }
            _ => return None,
        };
        Some(e(out))
    }

    fn option(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        let is_res = |x: &Expr| -> bool {
            match strip(x) {
                Expr::MethodCall(m) => ["map_err", "read", "write", "try_into", "recover", "ok_or", "ok_or_else", "parse"].contains(&m.method.to_string().as_str()),
                Expr::Call(c) => { let s = c.func.to_token_stream().to_string(); ["store_bytes", "restore_bytes", "store_raw_bytes", "restore_raw_bytes", "try_from", "from_bytes"].iter().any(|k| s.ends_with(k)) }
                _ => false,
            }
        };
        let res = is_res(r);
        Some(e(match (n.as_str(), a.len()) {
            ("map", 1) => { let v = apply(a[0], e(quote!(__v)))?; if res { quote!(match #r { Ok(__v) => Ok(#v), Err(__e) => Err(__e) }) } else { quote!(match #r { Some(__v) => Some(#v), None => None }) } }
            ("map_err", 1) => { let v = apply(a[0], e(quote!(__e)))?; quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#v) }) }
            ("and_then", 1) => { let v = apply(a[0], e(quote!(__v)))?; if res { quote!(match #r { Ok(__v) => #v, Err(__e) => Err(__e) }) } else { quote!(match #r { Some(__v) => #v, None => None }) } }
            ("ok_or_else", 1) if matches!(a[0], Expr::Path(_)) => { let f = a[0]; quote!(match #r { Some(__v) => Ok(__v), None => Err(#f()) }) }
            ("ok_or_else", 1) => { let (p, b) = closure(a[0])?; if !p.is_empty() || escapes(&b) { return None; } quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }) }
            ("unwrap_or_else", 1) => { let (p, b) = closure(a[0])?; if escapes(&b) { return None; } if p.is_empty() { quote!(match #r { Some(__v) => __v, None => #b }) } else { let p = &p[0]; quote!(match #r { Ok(__v) => __v, Err(#p) => #b }) } }
            ("then", 1) => { let (p, b) = closure(a[0])?; if !p.is_empty() || escapes(&b) { return None; } quote!(if #r { Some(#b) } else { None }) }
            ("filter", 1) => { let v = apply(a[0], e(quote!(&__v)))?; quote!(match #r { Some(__v) => { let __b: bool = #v; if __b { Some(__v) } else { None } } None => None }) }
            ("map_or", 2) => { let d = a[0]; let v = apply(a[1], e(quote!(__v)))?; quote!(match #r { Some(__v) => #v, None => #d }) }
            ("is_some_and", 1) => { let v = apply(a[0], e(quote!(__v)))?; quote!(match #r { Some(__v) => #v, None => false }) }
            ("ok_or", 1) => { let d = a[0]; quote!(match #r { Some(__v) => Ok(__v), None => Err(#d) }) }
            ("unwrap_or", 1) => { let d = a[0]; if res { return None; } quote!(match #r { Some(__v) => __v, None => #d }) }
            ("flatten", 0) => quote!(match #r { Some(__v) => __v, None => None }),
            ("zip", 1) => { let d = a[0]; quote!(match (#r, #d) { (Some(__v), Some(__w)) => Some((__v, __w)), _ => None }) }
            ("copied", 0) => quote!(match #r { Some(__v) => Some(*__v), None => None }),
            ("cloned", 0) => quote!(match #r { Some(__v) => Some(crate::vstub::cl(__v)), None => None }),
            ("ok", 0) => quote!(match #r { Ok(__v) => Some(__v), Err(_) => None }),
            _ => return None,
        }))
    }

    pub fn block(&mut self, b: &mut Block) {
        // a chain that is the value of the function
        if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() {
            if let Some((c, true)) = chain(x) {
                if c.term.as_ref().map_or(false, |t| t.0 == "try_for_each") { if let Some(y) = self.terminal(&c, 2) { *x = y; } }
            }
        }
        self.visit_block_mut(b);
    }

    /// What is known before a loop stays known in it, unless it has conditions of its own on how it is left.
    fn iso(&self, k: usize) -> TokenStream {
        if self.spec.hints.contains("isolate") || self.spec.loops.get(&k).map_or(false, |t| t.split_whitespace().any(|w| w == "invariant_except_break" || w == "ensures")) { quote!() } else { quote!(#[verifier::loop_isolation(false)]) }
    }
    fn user_loop(&mut self, k: usize) -> (usize, TokenStream, TokenStream, TokenStream, TokenStream) {
        self.heads.insert(k, "loop".into());
        let inv = self.spec.loops.get(&k).cloned().unwrap_or_default();
        let (ls, le) = (self.spec.ls.get(&k).cloned(), self.spec.le.get(&k).cloned());
        let (lb, la) = (self.spec.lb.get(&k).cloned(), self.spec.la.get(&k).cloned());
        (self.text(inv), self.raw(ls), self.raw(le), self.raw(lb), self.raw(la))
    }
}

/// Whether an expression is a boolean, by its look.
fn boolean(x: &Expr) -> bool {
    match strip(x) {
        Expr::MethodCall(m) => m.method.to_string().starts_with("is_"),
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) || (matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) && boolean(&b.left) && boolean(&b.right)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && boolean(&u.expr),
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if boolean(e)),
        _ => false,
    }
}

/// Whether a pattern binds variables.
fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> visit::Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.0 = true } } }
    let mut b = B(false);
    visit::Visit::visit_pat(&mut b, p);
    b.0
}

fn parse_quote_pat(ts: TokenStream) -> Pat { syn::parse::Parser::parse2(Pat::parse_single, ts).unwrap() }

impl<'a> VisitMut for Ctx<'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        let mut fuel = 0;
        loop {
            fuel += 1;
            if fuel > 50 { break; }
            // `chain?`
            if let Expr::Try(t) = x {
                if let Some((c, true)) = chain(strip(&t.expr)) {
                    if c.term.as_ref().map_or(false, |t| t.0 == "try_for_each") { if let Some(y) = self.terminal(&c, 1) { *x = y; continue; } }
                }
            }
            if let Expr::MethodCall(m) = x {
                if let Some((c, known)) = chain(&Expr::MethodCall(m.clone())) {
                    if known {
                        let y = if c.term.is_some() { self.terminal(&c, 0) } else if !c.ads.is_empty() { self.collect(&c) } else { match &c.src { Src::Vals(v) => Some(self.materialize(v).unwrap_or_else(|| v.clone())), _ => None } };
                        if let Some(y) = y { *x = y; continue; }
                        if c.term.is_some() || !c.ads.is_empty() { self.notes.push(format!("iterator chain not translated: {}", x.to_token_stream())); }
                    }
                }
            }
            // a conversion whose target the contract names
            if let Expr::MethodCall(m) = x {
                if m.method == "into" && m.args.is_empty() {
                    let t = self.spec.hints.iter().find_map(|h| h.strip_prefix("into ")).map(|t| t.to_string());
                    if let Some(t) = t {
                        let r = &m.receiver;
                        if t == "Vec<u8>" { *x = e(quote!(crate::vstub::vec_from(#r))); } else { let t: Type = parse_str(&t).unwrap(); *x = e(quote!(<#t>::from(#r))); }
                        continue;
                    }
                }
            }
            if let Expr::MethodCall(m) = x {
                if m.method == "to_be_bytes" && m.args.is_empty() { let r = &m.receiver; if matches!(&**r, Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if l.suffix() == "u32") { *x = e(quote!(crate::vstub::be_bytes4(#r))); continue; } *x = e(quote!(crate::vstub::be_bytes(#r))); continue; }
            }
            if let Expr::MethodCall(m) = x {
                if m.method == "next" && m.args.is_empty() {
                    if let Expr::MethodCall(c) = strip(&m.receiver) { if c.method == "chunks_exact" && c.args.len() == 1 { let (r, n) = (&c.receiver, &c.args[0]); *x = e(quote!(crate::vstub::first_chunk(#r, #n))); continue; } }
                }
            }
            if let Expr::Call(c) = x {
                if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.to_token_stream().to_string().replace(' ', "") == "Vec::from") && matches!(&c.args[0], Expr::Reference(r) if matches!(&*r.expr, Expr::Index(_))) { let a = &c.args[0]; *x = e(quote!(crate::vstub::vec_from(#a))); continue; }
            }
            if let Expr::Call(c) = x {
                if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if ["Word::from_be_bytes", "u64::from_be_bytes"].contains(&p.to_token_stream().to_string().replace(' ', "").as_str())) { let a = &c.args[0]; *x = e(quote!(crate::vstub::un_bytes(#a))); continue; }
            }
            // the entry of a map is the map at a key
            if let Expr::MethodCall(m) = x {
                if let Expr::MethodCall(i) = strip(&m.receiver) {
                    if i.method == "entry" && i.args.len() == 1 {
                        let (r, k) = (&i.receiver, &i.args[0]);
                        let is_default = |a: &Expr| { let s = a.to_token_stream().to_string(); s.ends_with("default") || s.ends_with("default ()") || s == "0" || s == "0u64" || s == "| | 0" };
                        match (m.method.to_string().as_str(), m.args.len()) {
                            ("or_default", 0) => { *x = e(quote!(#r.vx_entry(#k))); continue; }
                            ("or_insert", 1) | ("or_insert_with", 1) if is_default(&m.args[0]) => { *x = e(quote!(#r.vx_entry(#k))); continue; }
                            _ => {}
                        }
                    }
                }
            }
            if let Expr::MethodCall(m) = x {
                let m = m.clone();
                if let Some(y) = self.option(&m) { *x = y; continue; }
            }
            match x {
                // a flag added to a set of flags
                Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) && b.right.to_token_stream().to_string().starts_with("Checks ::") => { let (l, r) = (&b.left, &b.right); *x = e(quote!(#l.insert(#r))); continue; }
                // both operands of a boolean `|` and `&` are evaluated
                Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) && boolean(&b.left) && boolean(&b.right) => {
                    let (l, r) = (&b.left, &b.right);
                    let op = if matches!(b.op, BinOp::BitOr(_)) { quote!(||) } else { quote!(&&) };
                    *x = e(quote!({ let __l: bool = #l; let __r: bool = #r; __l #op __r }));
                    continue;
                }
                Expr::Match(m) => {
                    let mut arms = vec![];
                    let mut split = false;
                    for a in m.arms.drain(..) {
                        match (&a.pat, &a.guard) {
                            (Pat::Or(o), g) if g.is_some() || binds(&a.pat) => { split = true; for c in &o.cases { let mut b = a.clone(); b.pat = c.clone(); b.comma = Some(Default::default()); arms.push(b); } }
                            _ => { let mut a = a; a.comma = Some(Default::default()); arms.push(a); }
                        }
                    }
                    m.arms = arms;
                    if split { continue; }
                }
                Expr::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    let ts = m.mac.tokens.clone();
                    match name.as_str() {
                        "matches" => {
                            let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                                let a: Expr = i.parse()?; let _: Token![,] = i.parse()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                                let _: Option<Token![,]> = i.parse()?;
                                Ok((a, p, g))
                            };
                            if let Ok((a, p, g)) = parse::Parser::parse2(p, ts) { let g = g.map(|g| quote!(if #g)); *x = e(quote!(match #a { #p #g => true, _ => false })); continue; }
                        }
                        "vec" => {
                            let p = |i: parse::ParseStream| -> Result<(Expr, Expr)> { let a = i.parse()?; let _: Token![;] = i.parse()?; let b = i.parse()?; Ok((a, b)) };
                            if ts.is_empty() { *x = e(quote!(Vec::new())); continue; }
                            if let Ok((a, n)) = parse::Parser::parse2(p, ts.clone()) { *x = e(quote!(crate::vstub::vec_from_elem(#a, #n))); continue; }
                            let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                            if let Ok(v) = parse::Parser::parse2(p, ts) { let v: Vec<Expr> = v.into_iter().collect(); *x = e(quote!({ let mut __v = Vec::new(); #(__v.push(#v);)* __v })); continue; }
                        }
                        "format" => { *x = e(quote!(crate::vstub::message())); }
                        "unreachable" | "panic" | "unimplemented" | "todo" => { *x = e(quote!(crate::vstub::never())); }
                        // a runtime assertion is an obligation
                        "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                            let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                            if let Ok(v) = parse::Parser::parse2(p, ts) {
                                let v: Vec<Expr> = v.into_iter().collect();
                                let c = match (name.trim_start_matches("debug_"), v.len()) {
                                    ("assert", 1..) => { let a = &v[0]; Some(quote!(#a)) }
                                    ("assert_eq", 2..) => { let (a, b) = (&v[0], &v[1]); Some(quote!((#a) == (#b))) }
                                    ("assert_ne", 2..) => { let (a, b) = (&v[0], &v[1]); Some(quote!((#a) != (#b))) }
                                    _ => None,
                                };
                                if let Some(c) = c { *x = e(quote!(if !(#c) { crate::vstub::never() })); continue; }
                            }
                        }
                        _ => {}
                    }
                }
                Expr::Cast(c) => {
                    if let Expr::Path(p) = strip(&c.expr) {
                        let n = p.path.segments.len();
                        if n >= 2 {
                            let key = format!("{}::{}", p.path.segments[n - 2].ident, p.path.segments[n - 1].ident);
                            if let Some(d) = self.discr.get(&key) { let t = &c.ty; *x = e(quote!((#d as #t))); }
                        }
                    }
                }
                Expr::ForLoop(f) => {
                    if matches!(f.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_contract")) { break; }
                    let k = self.loops;
                    // `&mut v` goes over what `v.iter_mut()` does
                    if !self.spec.hints.contains(&format!("iter_mut {k}")) { if let Expr::Reference(r) = &*f.expr { if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) { let v = &r.expr; *f.expr = e(quote!(#v.iter_mut())); } } }
                    if let Some((c, true)) = chain(strip(&f.expr)) {
                        if c.term.is_none() && (!c.ads.is_empty() || !matches!(c.src, Src::Vals(_))) {
                            let src = self.src(&c.src);
                            let k = self.loops;
                            self.loops += 1;
                            let (pat, body) = (f.pat.clone(), f.body.clone());
                            let stm = body.stmts;
                            if let Some(l) = self.lp(&src, &c.ads, k, &mut |y| Some(quote!(let #pat = #y; #(#stm)*))) { let mut y = e(quote!({ #l })); self.visit_expr_mut(&mut y); *x = y; return; }
                            self.loops -= 1;
                        }
                    }
                    self.loops += 1;
                    let (inv, ls, le, lb, la) = self.user_loop(k); let iso = self.iso(k);
                    let it = format_ident!("it{k}");
                    self.visit_expr_mut(&mut f.expr);
                    self.visit_block_mut(&mut f.body);
                    let (pat, ex, stm, label) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
                    // a range of a slice, element by element
                    { if matches!(&**ex, Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)))) || matches!(&**ex, Expr::MethodCall(m) if m.method == "vx_bytes_mut") {
                        let (s, i) = (format_ident!("s{k}"), format_ident!("i{k}"));
                        *x = e(quote!({ let #s = #ex; let mut #i: usize = 0; #lb #iso #label while #i < #s.len() { __vx_contract!(#inv); let #pat = &mut #s[#i]; #i = #i + 1; #ls #(#stm)* ; #le } #la }));
                        return;
                    } }
                    let ex = if self.spec.hints.contains(&format!("iter_mut {k}")) { e(quote!(#ex.iter_mut())) } else { (**ex).clone() };
                    let has_tail = matches!(stm.last(), Some(Stmt::Expr(_, None)));
                    let semi = if has_tail { quote!(;) } else { quote!() };
                    *x = e(quote!({ #lb #iso #label for #pat in __vx_it!(#it, #ex) { __vx_contract!(#inv); #ls #(#stm)* #semi #le } #la }));
                    return;
                }
                Expr::While(w) => {
                    if matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_contract")) { break; }
                    let k = self.loops;
                    self.loops += 1;
                    let (inv, ls, le, lb, la) = self.user_loop(k); let iso = self.iso(k);
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let (c, stm, label) = (&w.cond, &w.body.stmts, &w.label);
                    *x = e(quote!({ #lb #iso #label while #c { __vx_contract!(#inv); #ls #(#stm)* #le } #la }));
                    return;
                }
                Expr::Loop(w) => {
                    let k = self.loops;
                    self.loops += 1;
                    let (inv, ls, le, lb, la) = self.user_loop(k); let iso = self.iso(k);
                    self.visit_block_mut(&mut w.body);
                    let (stm, label) = (&w.body.stmts, &w.label);
                    *x = e(quote!({ #lb #iso #label loop { __vx_contract!(#inv); #ls #(#stm)* #le } #la }));
                    return;
                }
                _ => {}
            }
            break;
        }
        // the loops this translation made are not visited as loops of the source
        match x {
            Expr::ForLoop(f) if matches!(f.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_contract")) => { self.visit_block_mut(&mut f.body); }
            _ => visit_mut::visit_expr_mut(self, x),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if ["unreachable", "panic", "unimplemented", "todo", "matches", "vec", "assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq", "debug_assert_ne"].contains(&n.as_str()) {
                let semi = m.semi_token;
                *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), semi);
            }
        }
        // `let x: T = self.into()` names the conversion it makes
        if let Stmt::Local(l) = s {
            if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
                if let Expr::MethodCall(m) = &*init.expr {
                    if m.method == "into" && m.receiver.to_token_stream().to_string() == "self" {
                        let t = &pt.ty;
                        let r = if self.mut_self { quote!(&mut *self) } else { quote!(self) };
                        init.expr = Box::new(e(quote!(<#t>::from(#r))));
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

#[allow(dead_code)]
pub fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
