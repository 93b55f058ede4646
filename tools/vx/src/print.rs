//! Prints tokens as Verus source, filling in the markers left by the translation.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub struct Printer<'a> {
    pub out: String,
    pub line: usize,
    pub texts: &'a BTreeMap<usize, String>,
    /// marker id -> lines it was printed at
    pub at: BTreeMap<usize, (usize, usize)>,
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn new(texts: &'a BTreeMap<usize, String>, line: usize) -> Self {
        Printer { out: String::new(), line, texts, at: BTreeMap::new(), glue: true }
    }
    fn s(&mut self, t: &str) {
        if !self.glue && !self.out.ends_with('\n') { self.out.push(' '); }
        self.out.push_str(t);
        self.line += t.matches('\n').count();
        self.glue = false;
    }
    pub fn nl(&mut self) {
        if !self.out.ends_with('\n') { self.out.push('\n'); self.line += 1; }
        self.glue = true;
    }
    fn marker(&mut self, id: usize) {
        self.nl();
        let a = self.line;
        let t = self.texts[&id].clone();
        self.s(&t);
        self.nl();
        self.at.insert(id, (a, self.line));
    }
    fn id_of(ts: &TokenStream) -> usize {
        ts.to_string().trim().trim_end_matches("usize").parse().unwrap()
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // markers: __vx_*!(..)
            if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
                let n = id.to_string();
                if p.as_char() == '!' && n.starts_with("__vx_") {
                    let mut used = 3;
                    match n.as_str() {
                        "__vx_raw" => { self.marker(Self::id_of(&g.stream())); if matches!(v.get(i + 3), Some(TokenTree::Punct(p)) if p.as_char() == ';') { used = 4; } }
                        "__vx_ret" | "__vx_it" => {
                            // (name, tokens)
                            let mut it = g.stream().into_iter();
                            let name = it.next().unwrap().to_string();
                            it.next();
                            let rest: TokenStream = it.collect();
                            if n == "__vx_ret" { self.s("("); self.glue = true; }
                            self.s(&name); self.out.push(':');
                            self.stream(rest);
                            if n == "__vx_ret" { self.out.push(')'); }
                        }
                        _ => panic!("stray marker {n} in {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ").chars().take(1500).collect::<String>()),
                    }
                    i += used;
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut k = 0;
                            let mut nobody = false;
                            while let (Some(TokenTree::Ident(a)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(gg))) = (inner.get(k), inner.get(k + 1), inner.get(k + 2)) {
                                let n = a.to_string();
                                if n == "__vx_contract" { self.marker(Self::id_of(&gg.stream())); k += 4; }
                                else if n == "__vx_nobody" { nobody = true; k += 4; }
                                else { break; }
                            }
                            if nobody { self.s(";"); self.nl(); i += 1; continue; }
                            self.s("{");
                            self.nl();
                            self.stream(inner[k..].iter().cloned().collect());
                            self.nl();
                            self.s("}");
                            if !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ".?;,".contains(p.as_char())) { self.nl(); }
                        }
                        Delimiter::Parenthesis | Delimiter::Bracket => {
                            let (a, b) = if g.delimiter() == Delimiter::Bracket { ("[", "]") } else { ("(", ")") };
                            // no space before an argument list
                            let tight = matches!(i.checked_sub(1).map(|j| &v[j]), Some(TokenTree::Ident(_)) | Some(TokenTree::Group(_)));
                            if tight && !matches!(&v[i - 1], TokenTree::Ident(x) if ["in", "if", "match", "while", "return", "as", "else", "mut"].contains(&x.to_string().as_str())) { self.glue = true; }
                            self.s(a);
                            self.glue = true;
                            self.stream(g.stream());
                            self.glue = true;
                            self.s(b);
                        }
                        Delimiter::None => self.stream(g.stream()),
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if (c == ',' || c == ';' || c == '.') && p.spacing() == Spacing::Alone { self.glue = true; }
                    self.s(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' { self.glue = true; }
                    if c == '.' && p.spacing() == Spacing::Alone { self.glue = true; }
                    if c == ';' || c == ',' { self.nl(); }
                }
                t => { let t = t.to_string(); self.s(&t); }
            }
            i += 1;
        }
    }
}
