//! Translation of the crate's modules into one Verus file: which items stay, where the contracts
//! go, and the mechanical changes to the items themselves.
use crate::desugar::Ctx;
use crate::overlay::{FnSpec, Overlay};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path as FsPath, PathBuf};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub loops: usize,
    pub heads: Vec<String>,
    pub ext: Option<String>,
    pub start: usize,
    pub end: usize,
    pub contract: Option<usize>,
    /// clause offsets within the contract text: first line, last line, kind, properties
    pub clauses: Vec<(usize, usize, String, Vec<String>)>,
    pub notes: Vec<String>,
    pub contracted: bool,
    pub assumed: bool,
}

pub struct Tr<'a> {
    pub ov: &'a mut Overlay,
    pub texts: Vec<String>,
    pub fns: Vec<FnInfo>,
    pub discr: BTreeMap<String, TokenStream>,
    pub demote: BTreeSet<String>,
    /// Asks for a contradiction at the end of every function.
    pub vacuity: bool,
    pub skipped: Vec<(String, String, usize)>,
    pub file: String,
    pub aliases: Vec<BTreeMap<String, String>>,
    pub derived: BTreeMap<String, Vec<String>>,
    /// spec functions made for constants that the verifier cannot read
    pub paths: Vec<PathBuf>,
    pub helpers: crate::inline::Helpers,
}

const EXT: &[&str] = &["fuel_types", "fuel_crypto", "fuel_asm", "fuel_merkle", "itertools", "num_integer", "sha2", "secp256k1"];

fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::NameValue(nv) if nv.path.is_ident("feature") => {
            let v = nv.value.to_token_stream().to_string();
            ["\"std\"", "\"alloc\"", "\"builder\"", "\"default\"", "\"internals\""].contains(&v.as_str())
        }
        Meta::Path(p) => !(p.is_ident("test") || p.is_ident("miri") || p.is_ident("kani")) && p.is_ident("unix"),
        Meta::List(l) => {
            let v: Vec<Meta> = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|v| v.into_iter().collect()).unwrap_or_default();
            if l.path.is_ident("not") { !v.iter().all(cfg_true) } else if l.path.is_ident("any") { v.iter().any(cfg_true) } else { v.iter().all(cfg_true) }
        }
        _ => false,
    }
}
fn enabled(attrs: &[Attribute]) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<Meta>().map(|m| cfg_true(&m)).unwrap_or(true))
}
fn is_pub() -> Visibility { parse_quote!(pub) }
fn ts(x: impl ToTokens) -> String { x.to_token_stream().to_string().replace(' ', "") }

/// Removes the tail attributes, drops disabled statements and fields, and roots external paths.
struct Clean { modbytes: bool }
impl Clean {
    fn path(&self, p: &mut Path) {
        let n = p.segments.len();
        let first = p.segments[0].ident.to_string();
        if n >= 2 && EXT.contains(&first.as_str()) { p.leading_colon = None; let mut q: Path = parse_quote!(crate); q.segments.extend(p.segments.clone()); *p = q; return; }
        if n >= 2 && (first == "std" || first == "core" || first == "alloc") {
            let second = p.segments[1].ident.to_string();
            if second == "io" { p.segments[0].ident = Ident::new("crate", Span::call_site()); }
            else if second == "iter" || second == "collections" { p.segments[0].ident = Ident::new("vstub", Span::call_site()); let mut q: Path = parse_quote!(crate); q.segments.extend(p.segments.clone()); *p = q; }
            else { p.segments[0].ident = Ident::new("std", Span::call_site()); }
            p.leading_colon = None;
        }
    }
}
impl VisitMut for Clean {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        if p.segments.last().unwrap().ident == "AsRef" && ts(&*p).ends_with("AsRef<[u8]>") { *p = parse_quote!(crate::vstub::AsBytes); }
        if p.segments.last().unwrap().ident == "AsMut" && ts(&*p).ends_with("AsMut<[u8]>") { *p = parse_quote!(crate::vstub::AsBytesMut); }
        if let Some(s) = p.segments.last_mut() { if s.ident == "IntoIter" { s.ident = Ident::new("Vec", Span::call_site()); if p.segments.len() > 1 { let l = p.segments.last().unwrap().clone(); *p = l.into(); } } }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            if let Some(x) = iter_item(&it.bounds) { *t = parse_quote!(Vec<#x>); }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if m.args.is_empty() && m.method == "as_ref" { m.method = Ident::new("vx_bytes", Span::call_site()); }
        if m.args.is_empty() && m.method == "as_mut" { m.method = Ident::new("vx_bytes_mut", Span::call_site()); }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_where_predicate_mut(&mut self, w: &mut WherePredicate) { if let WherePredicate::Type(t) = w { t.bounds = bare(&t.bounds); } visit_mut::visit_where_predicate_mut(self, w); }
    fn visit_type_param_mut(&mut self, t: &mut TypeParam) { t.bounds = bare(&t.bounds); visit_mut::visit_type_param_mut(self, t); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let keep = match &s {
                Stmt::Local(l) => enabled(&l.attrs),
                Stmt::Item(Item::Use(u)) => enabled(&u.attrs),
                Stmt::Expr(e, _) => enabled(attrs_of(e)),
                _ => true,
            };
            if !keep { continue; }
            match s {
                Stmt::Item(Item::Use(u)) => { let mut v = vec![]; flat(&u.tree, &mut vec![], &mut v); for u in v { if let Some(u) = map_use(&u) { out.push(Stmt::Item(Item::Verbatim(u))); } } }
                Stmt::Local(mut l) => { l.attrs.clear(); out.push(Stmt::Local(l)); }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}
/// Functions on texts: `&str`, formatters and number parsing in the vocabulary of `crate::text`, and `write!` as the sequence of writes it stands for.
struct Text;
impl VisitMut for Text {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Reference(r) if r.lifetime.is_none() && ts(&*r.elem) == "str" => { *r.elem = parse_quote!(crate::text::Str); }
            Type::Path(p) if p.qself.is_none() && p.path.segments.len() >= 2 => {
                let n = p.path.segments.len();
                let (a, b) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
                if a == "fmt" && b == "Formatter" { *t = parse_quote!(crate::text::Formatter); }
                else if a == "fmt" && b == "Result" { *t = parse_quote!(crate::text::FResult); }
            }
            _ => {}
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Item(Item::Const(c)) = s { let (n, t, e) = (&c.ident, &c.ty, &c.expr); *s = parse_quote!(let #n: #t = #e;); }
        if let Stmt::Macro(m) = s { if let Some(x) = write_macro(&m.mac) { *s = Stmt::Expr(x, m.semi_token); } }
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        match x {
            Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "from_str_radix" => { p.path.segments[1].ident = Ident::new("vx_from_str_radix", Span::call_site()); }
            Expr::Macro(m) => { if let Some(n) = write_macro(&m.mac) { *x = n; self.visit_expr_mut(x); } }
            Expr::Binary(ExprBinary { left, op: BinOp::BitXor(_), right, .. }) => { *x = parse_quote!(crate::text::xor(#left, #right)); }
            // a closure's body is written out by the translation of what takes it
            _ => {}
        }
    }
}
fn write_macro(m: &syn::Macro) -> Option<Expr> {
    if m.path.segments.last()?.ident != "write" { return None; }
    let v: Vec<Expr> = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()).ok()?.into_iter().collect();
    let f = v.first()?.clone();
    let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = v.get(1)? else { return None };
    let text = l.value();
    let mut args = v[2..].iter();
    let mut pieces: Vec<TokenStream> = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '{' && cs.get(i + 1) == Some(&'{') || cs[i] == '}' && cs.get(i + 1) == Some(&'}') { lit.push(cs[i]); i += 2; continue; }
        if cs[i] != '{' { lit.push(cs[i]); i += 1; continue; }
        let j = i + cs[i..].iter().position(|c| *c == '}')?;
        let mut body: &str = &cs[i + 1..j].iter().collect::<String>();
        i = j + 1;
        if !lit.is_empty() { let l = std::mem::take(&mut lit); pieces.push(quote!(crate::text::lit(#f, #l))); }
        body = body.strip_prefix(':')?;
        let alt = body.starts_with('#'); if alt { body = &body[1..]; }
        let zero = body.starts_with('0'); if zero { body = &body[1..]; }
        let upper = match body.chars().last()? { 'x' => false, 'X' => true, _ => return None };
        let w = &body[..body.len() - 1];
        let width: usize = if w.is_empty() { 0 } else { w.parse().ok()? };
        let a = args.next()?;
        pieces.push(quote!(crate::text::hex(#f, &#a, #upper, #alt, #width, #zero)));
    }
    if !lit.is_empty() { pieces.push(quote!(crate::text::lit(#f, #lit))); }
    if args.next().is_some() { return None; }
    let mut r = match pieces.pop() { None => quote!(Ok(())), Some(p) => p };
    while let Some(p) = pieces.pop() { r = quote!(match #p { Ok(()) => #r, Err(e) => Err(e) }); }
    syn::parse2(quote!({ #r })).ok()
}
fn attrs_of(e: &Expr) -> &[Attribute] {
    match e { Expr::Block(b) => &b.attrs, Expr::Unsafe(b) => &b.attrs, Expr::If(b) => &b.attrs, Expr::MethodCall(b) => &b.attrs, Expr::Call(b) => &b.attrs, Expr::Match(b) => &b.attrs, Expr::Return(b) => &b.attrs, _ => &[] }
}
/// Bounds without the traits that only the iterator library needs.
fn bare(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> punctuated::Punctuated<TypeParamBound, Token![+]> {
    b.iter().filter(|x| !matches!(x, TypeParamBound::Trait(t) if ["Hash", "Ord", "Eq"].contains(&t.path.segments.last().unwrap().ident.to_string().as_str()))).cloned().collect()
}
fn iter_item(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            let s = t.path.segments.last().unwrap();
            if ["Iterator", "IntoIterator", "ExactSizeIterator", "DoubleEndedIterator"].contains(&s.ident.to_string().as_str()) {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args { if let GenericArgument::AssocType(t) = g { if t.ident == "Item" { return Some(t.ty.clone()); } } }
                }
            }
        }
    }
    None
}
#[derive(Clone)]
struct U { path: Vec<String>, rename: Option<String>, glob: bool }
fn flat(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<U>) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.to_string()); flat(&p.tree, pre, out); pre.pop(); }
        UseTree::Name(n) => { let mut p = pre.clone(); let mut rename = None; if n.ident == "self" { if p.len() == 1 { rename = Some(p[0].clone()); } } else { p.push(n.ident.to_string()); } out.push(U { path: p, rename, glob: false }); }
        UseTree::Rename(r) => { let mut p = pre.clone(); if r.ident != "self" { p.push(r.ident.to_string()); } out.push(U { path: p, rename: Some(r.rename.to_string()), glob: false }); }
        UseTree::Glob(_) => out.push(U { path: pre.clone(), rename: None, glob: true }),
        UseTree::Group(g) => for x in &g.items { flat(x, pre, out) },
    }
}
/// The `use` item for the translated file, or nothing if what it names is not there.
fn map_use(u: &U) -> Option<TokenStream> {
    let mut p = u.path.clone();
    let root = p[0].clone();
    match root.as_str() {
        "std" | "core" | "alloc" => {
            match p.get(1).map(|x| x.as_str()) {
                Some("io") => { p[0] = "crate".into(); }
                Some("iter") => { p[0] = "vstub".into(); p.insert(0, "crate".into()); }
                Some("collections") => { p[0] = "vstub".into(); p.insert(0, "crate".into()); }
                Some("mem") => { p[0] = "std".into(); }
                Some("ops") | Some("cmp") | Some("convert") => { p[0] = "std".into(); }
                _ => return None,
            }
            if ["AsRef", "AsMut"].contains(&p.last().unwrap().as_str()) { return None; }
        }
        "derivative" | "rand" | "serde" | "serde_json" | "itertools" | "bitflags" | "num_integer" => return None,
        r if EXT.contains(&r) => p.insert(0, "crate".into()),
        _ => {}
    }
    let s = p.join("::") + if u.glob { "::*" } else { "" };
    let t: TokenStream = s.parse().unwrap();
    let a = u.rename.as_ref().filter(|r| u.glob || p.last() != Some(r)).map(|r| { let r: TokenStream = r.parse().unwrap(); quote!(as #r) });
    Some(quote!(#[allow(unused_imports)] pub use #t #a;))
}

fn rename(t: TokenStream, a: &str, b: &str) -> TokenStream {
    t.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Ident(i) if i == a => proc_macro2::TokenTree::Ident(Ident::new(b, i.span())),
        proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), rename(g.stream(), a, b)); n.set_span(g.span()); n.into() }
        t => t,
    }).collect()
}
/// The parts of what `bitflags!` declares that this crate uses.
fn bitflags(t: &TokenStream) -> Option<String> {
    struct F { id: Ident, ty: Type, c: Vec<(Ident, Expr)> }
    impl parse::Parse for F {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            Attribute::parse_outer(i)?; let _: Visibility = i.parse()?; let _: Token![struct] = i.parse()?;
            let id = i.parse()?; let _: Token![:] = i.parse()?; let ty = i.parse()?;
            let b; braced!(b in i);
            let mut c = vec![];
            while !b.is_empty() { Attribute::parse_outer(&b)?; let _: Token![const] = b.parse()?; let n = b.parse()?; let _: Token![=] = b.parse()?; let e = b.parse()?; let _: Token![;] = b.parse()?; c.push((n, e)); }
            Ok(F { id, ty, c })
        }
    }
    let F { id, ty, c } = parse2(t.clone()).ok()?;
    let ty = ts(ty);
    let mut o = format!("pub struct {id} {{ pub bits: {ty} }}\nimpl Clone for {id} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {id} {{ bits: self.bits }} }} }}\nimpl Copy for {id} {{}}\nimpl {id} {{\n");
    for (n, v) in &c { o.push_str(&format!("pub const {n}: {id} = {id} {{ bits: {} }};\n", v.to_token_stream())); }
    o.push_str(&format!("pub fn contains(&self, o: {id}) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) {{ self.bits & o.bits == o.bits }}\npub fn insert(&mut self, o: {id}) ensures final(self).bits == (old(self).bits | o.bits) {{ self.bits = self.bits | o.bits; }}\n}}\n"));
    Some(o)
}

fn block_end(b: &Block, msg: &str) -> Block { let _ = msg; parse_quote_spanned!(b.span()=> { ::std::unimplemented!() }) }

impl<'a> Tr<'a> {
    fn text(&mut self, s: String) -> usize { self.texts.push(s); self.texts.len() - 1 }
    fn raw(&mut self, s: impl Into<String>) -> TokenStream { let k = self.text(s.into()); quote!(__vx_raw!(#k);) }

    fn alias(&self, n: &str) -> String {
        for m in self.aliases.iter().rev() { if let Some(x) = m.get(n) { return x.clone(); } }
        n.to_string()
    }

    /// The name of a path in a key: its last segment, under the name it is declared with.
    fn name(&self, p: &Path) -> String {
        let s = p.segments.last().unwrap();
        let a = match &s.arguments { PathArguments::None => String::new(), a => ts(a) };
        format!("{}{}", self.alias(&s.ident.to_string()), a)
    }
    fn tyname(&self, t: &Type) -> String {
        match t { Type::Path(p) if p.qself.is_none() => self.name(&p.path), t => ts(t) }
    }

    fn collect_discr(&mut self, items: &[Item]) {
        for i in items {
            match i {
                Item::Enum(e) if enabled(&e.attrs) => {
                    let mut prev: Option<TokenStream> = None;
                    for v in &e.variants {
                        let d = match (&v.discriminant, &prev) { (Some((_, x)), _) => quote!((#x)), (None, None) => quote!(0), (None, Some(p)) => quote!((#p + 1)) };
                        self.discr.insert(format!("{}::{}", e.ident, v.ident), d.clone());
                        prev = Some(d);
                    }
                }
                Item::Mod(m) if enabled(&m.attrs) => if let Some((_, v)) = &m.content { self.collect_discr(v) },
                _ => {}
            }
        }
    }

    /// What has to be known of the whole crate beforehand: discriminants and free functions.
    fn scan(&mut self, dir: &FsPath) {
        let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        for f in v {
            if f.is_dir() { self.scan(&f); continue; }
            if f.extension().map_or(true, |x| x != "rs") { continue; }
            let m = f.file_stem().unwrap().to_string_lossy().to_string();
            let m = if m == "mod" { dir.file_name().unwrap().to_string_lossy().to_string() } else if m == "lib" { "crate".into() } else { m };
            if let Some(x) = std::fs::read_to_string(&f).ok().and_then(|t| syn::parse_file(&t).ok()) { self.collect_discr(&x.items); self.free_fns(&x.items, &m); }
        }
    }
    fn free_fns(&mut self, items: &[Item], m: &str) {
        for i in items {
            match i {
                Item::Fn(f) if enabled(&f.attrs) => { if !self.ov.fns.contains_key(&format!("{m}.{}", f.sig.ident)) { self.ov.drops.insert(format!("use {}", f.sig.ident)); self.helpers.add(m, None, &f.sig, &f.block); } }
                Item::Impl(x) if enabled(&x.attrs) && x.trait_.is_none() => {
                    let n = ts(&x.self_ty);
                    for f in &x.items { if let ImplItem::Fn(f) = f { if enabled(&f.attrs) && !self.ov.fns.contains_key(&format!("{n}.{}", f.sig.ident)) { self.helpers.add(m, Some(n.clone()), &f.sig, &f.block); } } }
                }
                Item::Trait(x) if enabled(&x.attrs) => {
                    let n = x.ident.to_string();
                    for f in &x.items { if let TraitItem::Fn(f) = f { if let (true, Some(b)) = (enabled(&f.attrs) && !self.ov.fns.contains_key(&format!("trait {n}.{}", f.sig.ident)), &f.default) { self.helpers.add(m, Some(n.clone()), &f.sig, b); } } }
                }
                Item::Mod(x) if enabled(&x.attrs) => if let Some((_, v)) = &x.content { self.free_fns(v, &x.ident.to_string()) },
                _ => {}
            }
        }
    }

    pub fn crate_root(&mut self, src: &FsPath) -> TokenStream {
        self.helpers.taken = self.ov.fns.keys().map(|k| k.rsplit('.').next().unwrap().to_string()).collect();
        self.scan(src);
        self.module_file(&src.join("lib.rs"), src, &[])
    }

    /// The items that the calls of a file's own one-armed `macro_rules` stand for.
    fn expand(&mut self, items: &[Item]) -> Vec<Item> {
        struct M { vars: Vec<String>, body: TokenStream }
        fn vars(t: TokenStream) -> Option<Vec<String>> {
            let mut out = vec![];
            let v: Vec<TokenTree> = t.into_iter().collect();
            for p in v.split(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ',')) {
                match p { [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(_)] if d.as_char() == '$' && c.as_char() == ':' => out.push(n.to_string()), [] => {}, _ => return None }
            }
            Some(out)
        }
        fn subst(t: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
            let v: Vec<TokenTree> = t.into_iter().collect();
            let mut out = TokenStream::new();
            let mut i = 0;
            while i < v.len() {
                match (&v[i], v.get(i + 1)) {
                    (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '$' && m.contains_key(&n.to_string()) => { out.extend(m[&n.to_string()].clone()); i += 2; continue; }
                    (TokenTree::Group(g), _) => { let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]); }
                    (t, _) => out.extend([t.clone()]),
                }
                i += 1;
            }
            out
        }
        fn go(items: Vec<Item>, ms: &mut BTreeMap<String, M>, out: &mut Vec<Item>) {
            for i in items {
                if let Item::Macro(m) = &i {
                    if m.mac.path.is_ident("macro_rules") {
                        let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        if let (Some(id), Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) = (&m.ident, v.first(), v.get(3)) {
                            if v.len() <= 5 { if let Some(vars) = vars(a.stream()) { ms.insert(id.to_string(), M { vars, body: b.stream() }); } }
                        }
                        continue;
                    }
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if let Some(x) = ms.get(&name) {
                        let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        let args: Vec<TokenStream> = v.split(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ',')).map(|p| p.iter().cloned().collect()).collect();
                        let map = x.vars.iter().cloned().zip(args).collect();
                        if let Ok(f) = syn::parse2::<File>(subst(x.body.clone(), &map)) { go(f.items, ms, out); continue; }
                    }
                }
                out.push(i);
            }
        }
        let mut out = vec![];
        go(items.to_vec(), &mut BTreeMap::new(), &mut out);
        out
    }
    /// A file of a dependency as a module of its own.
    pub fn dep(&mut self, name: &str, file: &FsPath) -> TokenStream {
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
        // `crate` is the dependency that the file belongs to
        let ext = file.components().filter_map(|c| EXT.iter().find(|e| c.as_os_str().to_string_lossy().starts_with(&format!("{}-", e.replace('_', "-"))))).last().copied().unwrap_or("fuel_types");
        let f = syn::parse_file(&text.replace("crate::", &format!("{}::", ext))).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
        let old = std::mem::replace(&mut self.file, file.display().to_string());
        let items = self.expand(&f.items);
        let body = self.items(&items, file, &[name.to_string()]);
        self.file = old;
        let id = format_ident!("{name}");
        let r = self.raw("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\nbroadcast use crate::vx::grp;\n");
        quote!(pub mod #id { #r #body })
    }

    fn module_file(&mut self, file: &FsPath, dir: &FsPath, path: &[String]) -> TokenStream {
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
        let f = syn::parse_file(&text).unwrap_or_else(|e| { eprintln!("PARSE {}: {e}", file.display()); std::process::exit(3) });
        let old = std::mem::replace(&mut self.file, file.display().to_string());
        self.paths.push(file.to_path_buf());
        let r = self.items(&f.items, dir, path);
        self.file = old;
        r
    }

    fn items(&mut self, items: &[Item], dir: &FsPath, path: &[String]) -> TokenStream {
        let mut al = BTreeMap::new();
        for i in items {
            if let Item::Use(u) = i { let mut v = vec![]; flat(&u.tree, &mut vec![], &mut v); for u in v { if let Some(r) = u.rename { al.insert(r, u.path.last().unwrap().clone()); } } }
        }
        self.aliases.push(al);
        let mut out = quote!();
        if let Some(t) = self.ov.modules.get(&if path.is_empty() { "crate".to_string() } else { path.join("::") }).cloned() { out.extend(self.raw(t)); }
        // derived impls become ordinary impls
        let mut all: Vec<Item> = vec![];
        for i in items { all.push(i.clone()); all.extend(self.derives(i)); }
        for i in &all { let t = self.item(i, dir, path); out.extend(t); }
        self.aliases.pop();
        out
    }

    /// The impls that `derive` stands for (rustc's expansion), for types listed in the contracts.
    fn derives(&mut self, i: &Item) -> Vec<Item> {
        let (attrs, id) = match i { Item::Struct(s) => (&s.attrs, &s.ident), Item::Enum(s) => (&s.attrs, &s.ident), _ => return vec![] };
        if !enabled(attrs) { return vec![]; }
        let mut ds: Vec<String> = vec![];
        for a in attrs {
            if a.path().is_ident("derive") || a.path().is_ident("derivative") {
                let _ = a.parse_nested_meta(|m| { ds.push(m.path.segments.last().unwrap().ident.to_string()); if m.input.peek(Token![=]) || m.input.peek(token::Paren) { let _: TokenStream = m.input.parse()?; } Ok(()) });
            }
        }
        self.derived.insert(id.to_string(), ds.clone());
        let has = |ov: &Overlay, t: &str, f: &str| ov.fns.contains_key(&format!("{id}.{t}.{f}"));
        let ignored = |f: &Field| f.attrs.iter().any(|a| a.path().is_ident("derivative") && ts(&a.meta).contains("PartialEq=\"ignore\""));
        let mut out = vec![];
        let generics = match i { Item::Struct(s) => s.generics.clone(), Item::Enum(s) => s.generics.clone(), _ => return vec![] };
        if !generics.params.is_empty() { return vec![]; }
        let variants: Vec<(TokenStream, Fields)> = match i {
            Item::Struct(s) => vec![(quote!(Self), s.fields.clone())],
            Item::Enum(s) => s.variants.iter().map(|v| { let n = &v.ident; (quote!(Self::#n), v.fields.clone()) }).collect(),
            _ => unreachable!(),
        };
        let is_struct = matches!(i, Item::Struct(_));
        for d in &ds {
            match d.as_str() {
                "Copy" => { if self.ov.keeps.contains(&format!("{id}.Copy")) { out.push(parse_quote!(impl Copy for #id {})); } }
                "Eq" => { if self.ov.keeps.contains(&format!("{id}.Eq")) { out.push(parse_quote!(impl Eq for #id {})); } }
                "Clone" if has(self.ov, "Clone", "clone") => {
                    let arms = variants.iter().map(|(p, f)| match f {
                        Fields::Named(n) => { let ns: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect(); quote!(#p { #(#ns),* } => #p { #(#ns: #ns.clone()),* }) }
                        Fields::Unnamed(n) => { let ns: Vec<_> = (0..n.unnamed.len()).map(|k| format_ident!("f{k}")).collect(); quote!(#p(#(#ns),*) => #p(#(#ns.clone()),*)) }
                        Fields::Unit => quote!(#p => #p),
                    });
                    out.push(parse_quote!(impl Clone for #id { fn clone(&self) -> Self { match self { #(#arms,)* } } }));
                }
                "Default" if is_struct && has(self.ov, "Default", "default") => {
                    let b = match &variants[0].1 {
                        Fields::Named(n) => { let ns = n.named.iter().map(|f| f.ident.clone().unwrap()); quote!(Self { #(#ns: Default::default()),* }) }
                        Fields::Unnamed(n) => { let ns = n.unnamed.iter().map(|_| quote!(Default::default())); quote!(Self(#(#ns),*)) }
                        Fields::Unit => quote!(Self),
                    };
                    out.push(parse_quote!(impl Default for #id { fn default() -> Self { #b } }));
                }
                "PartialEq" if has(self.ov, "PartialEq", "eq") => {
                    let arms: Vec<_> = variants.iter().map(|(p, f)| match f {
                        Fields::Named(n) => {
                            let ns: Vec<_> = n.named.iter().filter(|f| !ignored(f)).map(|f| f.ident.clone().unwrap()).collect();
                            let a: Vec<_> = ns.iter().map(|n| format_ident!("a_{n}")).collect();
                            let b: Vec<_> = ns.iter().map(|n| format_ident!("b_{n}")).collect();
                            if ns.is_empty() { quote!((#p { .. }, #p { .. }) => true) } else { quote!((#p { #(#ns: #a,)* .. }, #p { #(#ns: #b,)* .. }) => #(*#a == *#b)&&*) }
                        }
                        Fields::Unnamed(n) => { let a: Vec<_> = (0..n.unnamed.len()).map(|k| format_ident!("a{k}")).collect(); let b: Vec<_> = (0..n.unnamed.len()).map(|k| format_ident!("b{k}")).collect(); quote!((#p(#(#a),*), #p(#(#b),*)) => #(*#a == *#b)&&*) }
                        Fields::Unit => quote!((#p, #p) => true),
                    }).collect();
                    let last = if variants.len() > 1 { quote!(_ => false) } else { quote!() };
                    out.push(parse_quote!(impl PartialEq for #id { fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms,)* #last } } }));
                }
                _ => {}
            }
        }
        out
    }

    fn fields(&mut self, f: &mut Fields, vis: bool) {
        let fix = |l: &mut punctuated::Punctuated<Field, Token![,]>| {
            let v: Vec<Field> = l.iter().filter(|f| enabled(&f.attrs)).cloned().map(|mut f| { f.attrs.clear(); f.vis = if vis { is_pub() } else { Visibility::Inherited }; f }).collect();
            *l = v.into_iter().collect();
        };
        match f { Fields::Named(n) => fix(&mut n.named), Fields::Unnamed(n) => fix(&mut n.unnamed), _ => {} }
    }

    /// A trait whose associated types live in a supertrait `XTy`: the module that declares it names the supertrait.
    fn item(&mut self, i: &Item, dir: &FsPath, path: &[String]) -> TokenStream {
        let out = self.item0(i, dir, path);
        let here = format!("crate::{}", path.join("::"));
        let l: Vec<String> = self.ov.splits.iter().filter(|(_, m)| **m == here).map(|(t, _)| t.clone()).collect();
        l.iter().fold(out, |out, t| match i {
            Item::Trait(_) | Item::Mod(_) | Item::Use(_) => out,
            Item::Impl(im) if matches!(&im.trait_, Some((_, p, _)) if p.is_ident(t)) => out,
            _ => rename(out, t, &format!("{t}Ty")),
        })
    }

    fn item0(&mut self, i: &Item, dir: &FsPath, path: &[String]) -> TokenStream {
        let mut clean = Clean { modbytes: false };
        let _ = clean.modbytes;
        match i {
            Item::Use(u) if enabled(&u.attrs) => {
                let mut v = vec![];
                flat(&u.tree, &mut vec![], &mut v);
                let mut out = quote!();
                for u in &v {
                    if self.ov.drops.contains(&format!("use {}", u.path.last().unwrap())) || self.ov.drops.contains(&format!("use {}", u.path.join("::"))) { continue; }
                    if let Some(t) = map_use(u) { out.extend(t); }
                }
                out
            }
            Item::Mod(m) if enabled(&m.attrs) => {
                let n = m.ident.to_string();
                let mut p = path.to_vec();
                p.push(n.clone());
                if self.ov.drops.contains(&format!("mod {}", p.join("::"))) { return quote!(); }
                let body = match &m.content {
                    Some((_, items)) => { let d = dir.join(&n); self.items(items, &d, &p) }
                    None => {
                        let a = dir.join(format!("{n}.rs"));
                        let b = dir.join(&n).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        let d = dir.join(&n);
                        self.module_file(&f, &d, &p)
                    }
                };
                let id = &m.ident;
                let r = self.raw("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\nbroadcast use crate::vx::grp;\n");
                quote!(pub mod #id { #r #body })
            }
            Item::Const(c) if enabled(&c.attrs) => {
                if self.ov.drops.contains(&format!("const {}", c.ident)) { return quote!(); }
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = is_pub();
                clean.visit_item_const_mut(&mut c);
                // constants are read by the verifier too: the size of a word is a number there
                if ts(&c.expr) == "std::mem::size_of::<Word>()" { *c.expr = parse_quote!(8); }
                quote!(#c)
            }
            Item::Type(t) if enabled(&t.attrs) => { let mut t = t.clone(); t.attrs.clear(); t.vis = is_pub(); clean.visit_item_type_mut(&mut t); quote!(#t) }
            Item::Struct(s) if enabled(&s.attrs) => {
                if self.ov.drops.contains(&format!("struct {}", s.ident)) { return quote!(); }
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = is_pub();
                self.fields(&mut s.fields, true);
                clean.visit_item_struct_mut(&mut s);
                let a = self.ov.attrs.get(&s.ident.to_string()).cloned().map(|a| self.raw(a));
                quote!(#a #s)
            }
            Item::Enum(s) if enabled(&s.attrs) => {
                if self.ov.drops.contains(&format!("enum {}", s.ident)) { return quote!(); }
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = is_pub();
                for v in s.variants.iter_mut() { v.attrs.clear(); self.fields(&mut v.fields, false); }
                clean.visit_item_enum_mut(&mut s);
                let a = self.ov.attrs.get(&s.ident.to_string()).cloned().map(|a| self.raw(a));
                quote!(#[allow(inconsistent_fields)] #a #s)
            }
            Item::Fn(f) if enabled(&f.attrs) => {
                let key = format!("{}.{}", path.last().map(|x| x.as_str()).unwrap_or("crate"), f.sig.ident);
                if !self.ov.fns.contains_key(&key) { self.skipped.push((key, self.file.clone(), f.sig.span().start().line)); return quote!(); }
                self.func(&key, f.sig.clone(), Some((*f.block).clone()), true)
            }
            Item::Trait(t) if enabled(&t.attrs) => {
                if self.ov.drops.contains(&format!("trait {}", t.ident)) { return quote!(); }
                let mut body = quote!();
                let mut types = quote!();
                // default methods moved to a trait of their own, implemented for all
                let mut out = quote!();
                let tn = t.ident.to_string();
                let split = self.ov.splits.contains_key(&tn);
                if let Some(x) = self.ov.traits.get(&tn).cloned() { types.extend(self.raw(x)); }
                for it in &t.items {
                    match it {
                        TraitItem::Fn(f) if enabled(&f.attrs) => {
                            let key = format!("trait {tn}.{}", f.sig.ident);
                            if self.ov.drops.contains(&key) { continue; }
                            let x = self.func(&key, f.sig.clone(), f.default.clone(), false);
                            if f.default.is_some() && self.ov.outlines.contains(&key) { out.extend(x) } else { body.extend(x) }
                        }
                        TraitItem::Type(x) if enabled(&x.attrs) => { let mut x = x.clone(); x.attrs.clear(); clean.visit_trait_item_type_mut(&mut x); if let Some(b) = self.ov.supers.get(&format!("{tn}::{}", x.ident)) { let b: TokenStream = b.parse().unwrap(); let id = &x.ident; types.extend(quote!(type #id: #b;)); } else { types.extend(quote!(#x)) } }
                        TraitItem::Const(x) if enabled(&x.attrs) => { let mut x = x.clone(); x.attrs.clear(); clean.visit_trait_item_const_mut(&mut x); body.extend(quote!(#x)) }
                        _ => {}
                    }
                }
                let mut sup = t.supertraits.clone();
                for b in sup.iter_mut() { clean.visit_type_param_bound_mut(b); }
                let sup: Vec<TokenStream> = sup.iter().map(|b| quote!(#b)).chain(self.ov.supers.get(&tn).map(|s| s.parse().unwrap())).collect();
                let id = &t.ident;
                let (g, _, w) = t.generics.split_for_impl();
                let colon = if sup.is_empty() { quote!() } else { quote!(: #(#sup)+*) };
                let out = if out.is_empty() { out } else { let o = format_ident!("{}Out", id); quote!(pub trait #o: #id { #out } impl<T: #id> #o for T {}) };
                if split { let y = format_ident!("{}Ty", id); return quote!(pub trait #y #g #colon #w { #types } pub trait #id #g: #y #w { #body } #out); }
                quote!(pub trait #id #g #colon #w { #types #body } #out)
            }
            Item::Impl(im) if enabled(&im.attrs) => self.imp(im),
            Item::Macro(m) if enabled(&m.attrs) && m.mac.path.segments.last().unwrap().ident == "bitflags" => match bitflags(&m.mac.tokens) { Some(t) => self.raw(t), None => quote!() },
            _ => quote!(),
        }
    }

    fn imp(&mut self, im: &ItemImpl) -> TokenStream {
        let mut clean = Clean { modbytes: false };
        let self_n = self.tyname(&im.self_ty);
        let (key, tr) = match &im.trait_ {
            Some((_, p, _)) => { let n = self.name(p); (format!("{self_n}.{n}"), Some(p.clone())) }
            None => (self_n.clone(), None),
        };
        let inherent = self.ov.inherent.get(&key).cloned();
        let pre = format!("{key}.");
        let keep = self.ov.keeps.contains(&key) || self.ov.fns.keys().any(|k| k.starts_with(&pre) && !k[pre.len()..].contains('.'));
        if self.ov.drops.contains(&key) { return quote!(); }
        // an inherent function names no associated type
        let sub_im;
        let im = if inherent.is_some() {
            struct Assoc(BTreeMap<String, Type>);
            impl VisitMut for Assoc { fn visit_type_mut(&mut self, t: &mut Type) { if let Some(x) = self.0.get(&ts(&*t)) { *t = x.clone(); } else { visit_mut::visit_type_mut(self, t) } } }
            let mut c = im.clone();
            let m = c.items.iter().filter_map(|i| match i { ImplItem::Type(t) => Some((format!("Self::{}", t.ident), t.ty.clone())), _ => None }).collect();
            c.items.retain(|i| !matches!(i, ImplItem::Type(_)));
            Assoc(m).visit_item_impl_mut(&mut c);
            sub_im = c;
            &sub_im
        } else { im };
        if tr.is_some() && !keep { for it in &im.items { if let ImplItem::Fn(f) = it { self.skipped.push((format!("{key}.{}", f.sig.ident), self.file.clone(), f.sig.span().start().line)); } } return quote!(); }
        let mut body = quote!();
        let mut types = quote!();
        let split = tr.as_ref().and_then(|p| p.segments.last()).and_then(|s| self.ov.splits.get(&s.ident.to_string()).map(|m| format!("{m}::{}Ty", s.ident)));
        if let Some(x) = self.ov.impls.get(&key).cloned() { types.extend(self.raw(x)); }
        for it in &im.items {
            match it {
                ImplItem::Fn(f) if enabled(&f.attrs) => {
                    let k = format!("{key}.{}", f.sig.ident);
                    if !self.ov.fns.contains_key(&k) && (tr.is_none() || self.ov.drops.contains(&k)) { self.skipped.push((k, self.file.clone(), f.sig.span().start().line)); continue; }
                    let mut sig = f.sig.clone();
                    if let Some(n) = &inherent { sig.ident = Ident::new(n, sig.ident.span()); }
                    let x = self.func(&k, sig, Some(f.block.clone()), tr.is_none() || inherent.is_some());
                    body.extend(x);
                }
                ImplItem::Const(c) if enabled(&c.attrs) && self.ov.fns.contains_key(&format!("{key}.{}", c.ident)) => {
                    let (n, t, e) = (Ident::new(&format!("vx_const_{}", c.ident), c.ident.span()), &c.ty, &c.expr);
                    let x = self.func(&format!("{key}.{}", c.ident), parse_quote!(fn #n() -> #t), Some(parse_quote!({ #e })), tr.is_none());
                    body.extend(x);
                }
                ImplItem::Const(c) if enabled(&c.attrs) => {
                    if self.ov.drops.contains(&format!("{key}.{}", c.ident)) { continue; }
                    let mut c = c.clone();
                    c.attrs.clear();
                    if tr.is_none() { c.vis = is_pub(); }
                    clean.visit_impl_item_const_mut(&mut c);
                    body.extend(quote!(#c));
                }
                ImplItem::Type(c) if enabled(&c.attrs) => { let mut c = c.clone(); c.attrs.clear(); clean.visit_impl_item_type_mut(&mut c); types.extend(quote!(#c)); }
                _ => {}
            }
        }
        let mut im2 = im.clone();
        im2.items.clear();
        clean.visit_item_impl_mut(&mut im2);
        let (g, _, w) = im2.generics.split_for_impl();
        let st = &im2.self_ty;
        let t = if inherent.is_some() { None } else { im2.trait_.as_ref().map(|(_, p, _)| quote!(#p for)) };
        if let Some(y) = split { let y: TokenStream = y.parse().unwrap(); return quote!(impl #g #y for #st #w { #types } impl #g #t #st #w { #body }); }
        quote!(impl #g #t #st #w { #types #body })
    }

    fn func(&mut self, key: &str, mut sig: Signature, block: Option<Block>, vis: bool) -> TokenStream {
        let line = sig.span().start().line;
        let ret0 = match &sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => ts(t) };
        let mut info = FnInfo { key: key.into(), file: self.file.clone(), line, ..Default::default() };
        let mut spec = self.ov.fns.get(key).cloned().unwrap_or_else(|| FnSpec { ext: Some("no contract".into()), ..Default::default() });
        if let Some(s) = self.ov.fns.get_mut(key) { if s.used { return quote!(); } s.used = true; info.contracted = true; }
        let demoted = self.demote.contains(key);
        if demoted { spec.ext = Some("demoted".into()); }
        if self.vacuity && spec.ext.is_none() { spec.post.push_str("\nassert(false);"); }
        info.ext = spec.ext.clone();
        info.assumed = spec.ext.is_some() && block.is_some();
        let mut clean = Clean { modbytes: false };
        // generic parameters that are iterators
        let mut subst: BTreeMap<String, Type> = BTreeMap::new();
        let mut gs = sig.generics.clone();
        let mut drop_p = vec![];
        for p in gs.params.iter() { if let GenericParam::Type(t) = p { if let Some(x) = iter_item(&t.bounds) { subst.insert(t.ident.to_string(), x); drop_p.push(t.ident.to_string()); } } }
        if let Some(w) = &mut gs.where_clause {
            let v: Vec<WherePredicate> = w.predicates.iter().filter(|p| match p { WherePredicate::Type(t) => match iter_item(&t.bounds) { Some(x) => { subst.insert(ts(&t.bounded_ty), x); drop_p.push(ts(&t.bounded_ty)); false } None => true }, _ => true }).cloned().collect();
            w.predicates = v.into_iter().collect();
        }
        let v: Vec<GenericParam> = gs.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if drop_p.contains(&t.ident.to_string()))).cloned().collect();
        gs.params = v.into_iter().collect();
        if gs.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { gs.where_clause = None; }
        sig.generics = gs;
        struct Sub(BTreeMap<String, Type>);
        impl VisitMut for Sub { fn visit_type_mut(&mut self, t: &mut Type) { if let Some(x) = self.0.get(&ts(&*t)) { let x = x.clone(); *t = parse_quote!(Vec<#x>); } else { visit_mut::visit_type_mut(self, t) } } }
        Sub(subst).visit_signature_mut(&mut sig);
        clean.visit_signature_mut(&mut sig);
        if !spec.hints.contains("const") { sig.constness = None; }
        if spec.hints.contains("text") { Text.visit_signature_mut(&mut sig); }
        if sig.ident == "as_ref" { sig.ident = Ident::new("vx_bytes", sig.ident.span()); }
        if sig.ident == "as_mut" { sig.ident = Ident::new("vx_bytes_mut", sig.ident.span()); }
        // underscore and pattern arguments keep their shape
        let mut out_ty = None;
        if let ReturnType::Type(a, t) = &sig.output {
            out_ty = Some((**t).clone());
            let name = format_ident!("{}", spec.ret.clone().unwrap_or_else(|| "r".into()));
            let t2 = t.clone();
            sig.output = ReturnType::Type(*a, Box::new(parse_quote!(__vx_ret!(#name, #t2))));
        }
        let out0 = out_ty.clone();
        // contract text, clause by clause
        let mut c = String::new();
        let mut lines = 0;
        let mut add = |c: &mut String, head: &str, body: &str, props: Vec<String>, info: &mut FnInfo| {
            let body = body.trim_end();
            if body.trim().is_empty() { return; }
            let body = if head.is_empty() || head != "decreases" { if body.trim_end().ends_with(',') { body.to_string() } else { format!("{body},") } } else { body.to_string() };
            let t = if head.is_empty() { format!("{body}\n") } else { format!("    {head}\n{body}\n") };
            let n = t.matches('\n').count();
            info.clauses.push((lines, lines + n - 1, if head.is_empty() { "ensures".into() } else { head.to_string() }, props));
            lines += n;
            c.push_str(&t);
        };
        add(&mut c, "requires", &spec.req, vec![], &mut info);
        let mut first = true;
        for (p, e) in spec.ens.clone() { add(&mut c, if first { "ensures" } else { "" }, &e, p, &mut info); first = false; }
        add(&mut c, "decreases", &spec.dec, vec![], &mut info);
        let cid = self.text(c);
        info.contract = Some(cid);

        let start = self.raw(format!("// fn {key}"));
        info.start = self.texts.len() - 1;
        let mut attr = spec.attr.clone();
        if spec.ext.is_some() && block.is_some() { attr.push_str("#[verifier::external_body]\n"); }
        let attr = if attr.is_empty() { quote!() } else { self.raw(attr) };
        let body = match block {
            None => quote!({ __vx_contract!(#cid); __vx_nobody!(); }),
            Some(b) if spec.ext.is_some() => { for a in sig.inputs.iter_mut() { match a { FnArg::Receiver(r) if r.reference.is_none() => r.mutability = None, FnArg::Typed(t) => if let Pat::Ident(i) = &mut *t.pat { i.mutability = None }, _ => {} } } let b = block_end(&b, ""); let s = &b.stmts; quote!({ __vx_contract!(#cid); #(#s)* }) }
            Some(mut b) => {
                let raw = b.clone();
                let f = FsPath::new(&self.file);
                let m = f.file_stem().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
                let m = if m == "mod" { f.parent().and_then(|p| p.file_name()).map(|x| x.to_string_lossy().to_string()).unwrap_or_default() } else if m == "lib" { "crate".into() } else { m };
                let me = match key.strip_prefix("trait ") { Some(k) => k.split('.').next().map(|x| x.to_string()), None => { let k = key.split('.').next().unwrap(); if k.starts_with(|c: char| c.is_uppercase()) { Some(k.to_string()) } else { None } } };
                let mut inl = crate::inline::Inline { helpers: &self.helpers, local: Default::default(), me, module: m, depth: 0, used: vec![], ret: ret0 };
                let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inl.run(&mut b))).is_ok();
                let used = std::mem::take(&mut inl.used);
                if !done { b = raw; } else if !used.is_empty() { info.notes.push(format!("in place of their calls: {}", used.join(", "))); }
                clean.visit_block_mut(&mut b);
                if spec.hints.contains("text") { Text.visit_block_mut(&mut b); }
                let mut ctx = Ctx { loops: 0, texts: &mut self.texts, spec: &mut spec, discr: &self.discr, notes: vec![], heads: Default::default(), mut_self: matches!(sig.receiver(), Some(r) if r.mutability.is_some() && r.reference.is_some()) };
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ctx.block(&mut b))).is_err() { ctx.notes.push("the translation of the body failed".into()); b = parse_quote!({ __vx_untranslated() }); }
                info.loops = ctx.loops;
                info.heads = ctx.heads.into_values().collect();
                info.notes.extend(ctx.notes);
                let mut pre = if spec.pre.trim().is_empty() { quote!() } else { self.raw(spec.pre.clone()) };
                // a receiver taken by value and changed: the body works on a variable of its own
                if matches!(sig.receiver(), Some(r) if r.mutability.is_some() && r.reference.is_none()) {
                    let s = b.stmts.iter().map(|s| rename(quote!(#s), "self", "vx_self"));
                    b = parse_quote!({ #(#s)* });
                    pre = quote!(#pre let mut vx_self = self;);
                    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { r.mutability = None; }
                }
                let s = &b.stmts;
                if spec.post.trim().is_empty() { quote!({ __vx_contract!(#cid); #pre #(#s)* }) } else {
                    let post = self.raw(spec.post.clone());
                    match b.stmts.last() {
                        Some(Stmt::Expr(_, None)) => { let n = b.stmts.len(); let (a, z) = (&b.stmts[..n - 1], &b.stmts[n - 1]); let ty = out_ty.map(|t| quote!(: #t)); quote!({ __vx_contract!(#cid); #pre #(#a)* let __out #ty = #z; #post __out }) }
                        _ => quote!({ __vx_contract!(#cid); #pre #(#s)* #post }),
                    }
                }
            }
        };
        let end = self.raw("// end");
        info.end = self.texts.len() - 1;
        self.fns.push(info);
        let vis = if vis { quote!(pub) } else { quote!() };
        // a constant under contract
        if let (Some(n), Some(t)) = (sig.ident.to_string().strip_prefix("vx_const_"), &out0) { let n = Ident::new(n, sig.ident.span()); return quote!(#start #attr #vis exec const #n : #t #body #end); }
        quote!(#start #attr #vis #sig #body #end)
    }
}
