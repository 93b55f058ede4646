//! Contract files: contracts attached to the functions of the code by name.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub at: String,
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub req: String,
    pub ens: Vec<(Vec<String>, String)>,
    pub dec: String,
    pub pre: String,
    pub loops: BTreeMap<usize, String>,
    pub ls: BTreeMap<usize, String>,
    pub le: BTreeMap<usize, String>,
    /// Proof text directly before and after a loop.
    pub lb: BTreeMap<usize, String>,
    pub la: BTreeMap<usize, String>,
    pub post: String,
    pub attr: String,
    /// The body is outside the verifier's reach: the contract is assumed.
    pub ext: Option<String>,
    pub hints: BTreeSet<String>,
    pub used: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Overlay {
    pub head: String,
    pub fns: BTreeMap<String, FnSpec>,
    pub modules: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub supers: BTreeMap<String, String>,
    pub drops: BTreeSet<String>,
    pub keeps: BTreeSet<String>,
    pub outlines: BTreeSet<String>,
    pub splits: BTreeMap<String, String>,
    /// Trait impls translated as inherent functions, so that they can have a precondition.
    pub inherent: BTreeMap<String, String>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub attrs: BTreeMap<String, String>,
}

fn props(s: &str) -> Vec<String> {
    s.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}

impl Overlay {
    pub fn add(&mut self, file: &str, text: &str) {
        enum Cur { None, Fn(String), Module(String), Impl(String), Trait(String), Head }
        let mut cur = Cur::None;
        // the clause of the current function that plain lines extend
        let mut clause = String::new();
        for (ln, line) in text.lines().enumerate() {
            let t = line.trim_start();
            if t.starts_with("@#") || (matches!(cur, Cur::None) && (t.is_empty() || t.starts_with("//"))) { continue; }
            if let Some(d) = t.strip_prefix('@') {
                let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
                let rest = rest.trim();
                match w {
                    "head" => { cur = Cur::Head; continue }
                    "fn" => {
                        let s = self.fns.entry(rest.to_string()).or_default();
                        if !s.at.is_empty() { panic!("{file}:{}: second contract for {rest}, first at {}", ln + 1, s.at) }
                        s.at = format!("{file}:{}", ln + 1);
                        cur = Cur::Fn(rest.to_string());
                        clause = "pre".into();
                        continue;
                    }
                    "module" => { cur = Cur::Module(rest.to_string()); continue }
                    "impl" => { cur = Cur::Impl(rest.to_string()); continue }
                    "trait" => { cur = Cur::Trait(rest.to_string()); continue }
                    "super" => { let (a, b) = rest.split_once(char::is_whitespace).unwrap(); self.supers.insert(a.into(), b.trim().into()); cur = Cur::None; continue }
                    "drop" => { self.drops.insert(rest.into()); cur = Cur::None; continue }
                    "inherent" => { let (a, b) = rest.split_once(' ').expect("@inherent KEY name"); self.inherent.insert(a.into(), b.trim().into()); cur = Cur::None; continue }
                    "split" => { let (a, b) = rest.split_once(' ').expect("@split TRAIT MODULE"); self.splits.insert(a.into(), b.trim().into()); cur = Cur::None; continue }
                    "outline" => { self.outlines.insert(rest.into()); cur = Cur::None; continue }
                    "keep" => { self.keeps.insert(rest.into()); cur = Cur::None; continue }
                    "derive" => { let (a, b) = rest.split_once(char::is_whitespace).unwrap(); self.derives.entry(a.into()).or_default().extend(props(b)); cur = Cur::None; continue }
                    "tattr" => { let (a, b) = rest.split_once(char::is_whitespace).unwrap(); self.attrs.insert(a.into(), b.trim().into()); cur = Cur::None; continue }
                    _ => {}
                }
                let Cur::Fn(k) = &cur else { panic!("{file}:{}: directive @{w} outside a function", ln + 1) };
                let s = self.fns.get_mut(k).unwrap();
                match w {
                    "props" => s.props.extend(props(rest)),
                    "ret" => s.ret = Some(rest.into()),
                    "attr" => { s.attr.push_str(rest); s.attr.push('\n'); }
                    "ext" => s.ext = Some(rest.into()),
                    "hint" => { s.hints.insert(rest.into()); }
                    "ens" => { s.ens.push((props(rest), String::new())); clause = "ens".into(); }
                    "req" | "dec" | "pre" | "post" => clause = w.into(),
                    "loop" | "ls" | "le" | "lb" | "la" => clause = format!("{w} {}", rest),
                    _ => panic!("{file}:{}: unknown directive @{w}", ln + 1),
                }
                continue;
            }
            let add = |s: &mut String| { s.push_str(line); s.push('\n'); };
            match &cur {
                Cur::None => panic!("{file}:{}: text outside any directive", ln + 1),
                Cur::Head => add(&mut self.head),
                Cur::Module(m) => add(self.modules.entry(m.clone()).or_default()),
                Cur::Impl(m) => add(self.impls.entry(m.clone()).or_default()),
                Cur::Trait(m) => add(self.traits.entry(m.clone()).or_default()),
                Cur::Fn(k) => {
                    let s = self.fns.get_mut(k).unwrap();
                    let (w, n) = clause.split_once(' ').map(|(a, b)| (a.to_string(), b.parse::<usize>().unwrap())).unwrap_or((clause.clone(), 0));
                    match w.as_str() {
                        "req" => add(&mut s.req),
                        "ens" => add(&mut s.ens.last_mut().unwrap().1),
                        "dec" => add(&mut s.dec),
                        "pre" => add(&mut s.pre),
                        "post" => add(&mut s.post),
                        "loop" => add(s.loops.entry(n).or_default()),
                        "ls" => add(s.ls.entry(n).or_default()),
                        "le" => add(s.le.entry(n).or_default()),
                        "lb" => add(s.lb.entry(n).or_default()),
                        "la" => add(s.la.entry(n).or_default()),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
}
