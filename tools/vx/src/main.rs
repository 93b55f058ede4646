//! vx: puts the contracts of /verif/contracts on the functions of a crate and writes the result
//! as one Verus file, with a table that leads from its lines back to the functions.
mod desugar;
mod inline;
mod overlay;
mod print;
mod translate;

use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

fn main() {
    let mut src = PathBuf::from("/repo/src");
    let mut con = PathBuf::from("/verif/contracts");
    let mut out = PathBuf::from("out.rs");
    let mut map = PathBuf::from("out.json");
    let mut demote = BTreeSet::new();
    let mut vacuity = false;
    let mut deps: Vec<(String, PathBuf)> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        match k.as_str() {
            "--src" => src = v.into(),
            "--contracts" => con = v.into(),
            "--out" => out = v.into(),
            "--map" => map = v.into(),
            "--dep" => { let (n, p) = v.split_once('=').expect("--dep NAME=FILE"); deps.push((n.into(), p.into())); }
            "--vacuity" => vacuity = v != "0",
            "--demote" => { demote.insert(v); }
            _ => panic!("unknown option {k}"),
        }
    }
    let mut ov = overlay::Overlay::default();
    let mut files: Vec<PathBuf> = std::fs::read_dir(&con).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    files.sort();
    for f in &files { ov.add(&f.file_name().unwrap().to_string_lossy(), &std::fs::read_to_string(f).unwrap()); }

    let mut tr = translate::Tr { ov: &mut ov, texts: vec![], fns: vec![], discr: BTreeMap::new(), demote, vacuity, skipped: vec![], file: String::new(), helpers: Default::default(), aliases: vec![], derived: BTreeMap::new(), paths: vec![] };
    let mut body = tr.crate_root(&src);
    for (n, p) in &deps { let t = tr.dep(n, p); body.extend(t); }
    let (texts, fns, skipped) = (tr.texts, tr.fns, tr.skipped);
    let texts: BTreeMap<usize, String> = texts.into_iter().enumerate().collect();

    let mut text = String::from("#![allow(warnings)]\n#![allow(inconsistent_fields)]\nuse vstd::prelude::*;\nfn main() {}\nverus! {\n");
    text.push_str(&ov.head);
    text.push('\n');
    let line = text.matches('\n').count() + 1;
    let mut p = print::Printer::new(&texts, line);
    p.stream(body);
    p.nl();
    let at = p.at.clone();
    text.push_str(&p.out);
    text.push_str("\n}\n");
    std::fs::write(&out, text).unwrap();

    let mut unused: Vec<&String> = ov.fns.iter().filter(|(_, s)| !s.used).map(|(k, _)| k).collect();
    unused.sort();
    let rows: Vec<_> = fns.iter().map(|f| {
        let s = at.get(&f.start).map_or(0, |x| x.0);
        let e = at.get(&f.end).map_or(0, |x| x.0);
        let c = f.contract.and_then(|c| at.get(&c)).map_or(0, |x| x.0);
        let spec = ov.fns.get(&f.key);
        json!({
            "key": f.key, "file": f.file, "line": f.line, "start": s, "end": e, "loops": f.loops, "heads": f.heads,
            "loops_expected": spec.map(|s| s.loops.keys().max().map_or(0, |x| x + 1)),
            "props": spec.map(|s| s.props.clone()).unwrap_or_default(),
            "contracted": f.contracted, "assumed": f.assumed, "why": f.ext, "notes": f.notes,
            "clauses": f.clauses.iter().map(|(a, b, k, p)| json!({"from": c + a, "to": c + b, "kind": k, "props": p})).collect::<Vec<_>>(),
            "at": spec.map(|s| s.at.clone()),
        })
    }).collect();
    let j = json!({"fns": rows, "unmatched": unused, "skipped": skipped.iter().map(|(k, f, l)| json!([k, f, l])).collect::<Vec<_>>(), "head_lines": [5, line]});
    std::fs::write(&map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
