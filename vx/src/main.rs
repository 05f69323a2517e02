//! vx: extracts functions from /repo/src, weaves contracts from specs/*.vspec
//! into them and writes one Verus file.
//!
//! Usage: vx SRC_DIR OUT.rs OUT.json SPEC... [--po u16]
//!
//! The extraction is mechanical: see DESIGN.md ("What the extraction changes")
//! for the complete list of rewrites. Anything it does not recognise is
//! reported as an error, which the driver treats as "undecided".
mod pre;
mod print;
mod rewrite;
mod source;
mod spec;

use std::collections::{BTreeMap, BTreeSet};

pub struct Out {
    pub text: String,
    pub line: usize,
    /// (first line, last line, function id)
    pub map: Vec<(usize, usize, String)>,
}
impl Out {
    pub fn push(&mut self, s: &str) {
        self.text.push_str(s);
        self.text.push('\n');
        self.line += s.matches('\n').count() + 1;
    }
}

/// The name under which the function appears in the output.
fn fn_name(sec: &spec::Section) -> String {
    if let Some(sig) = sec.parts.get("sig") {
        if let Some(x) = sig.trim_start().strip_prefix("fn ") {
            return x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        }
    }
    if sec.flag("vinto") {
        return "vinto".into();
    }
    let p = &sec.args[1];
    let n = sec.opt("as").unwrap_or(p.rsplit("::").next().unwrap());
    n.to_string()
}

/// specs/30_pgcore.vspec  ==>  s30_pgcore
fn module_name(path: &str) -> String {
    format!("s{}", std::path::Path::new(path).file_stem().unwrap().to_string_lossy())
}

fn idents(text: &str) -> BTreeSet<String> {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|s| s.to_string()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = &args[1];
    let out_rs = &args[2];
    let out_json = &args[3];
    let mut specs = vec![];
    let mut po = "u16".to_string();
    let mut prop: Option<String> = None;
    let mut ext: BTreeSet<String> = BTreeSet::new();
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--po" => po = args[i + 1].clone(),
            "--prop" => prop = Some(args[i + 1].clone()),
            // functions whose body is not checked (undecided)
            "--external" => ext = args[i + 1].split(',').map(|s| s.to_string()).collect(),
            _ => {
                specs.push(args[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let mut lib = source::Lib::new(src);
    let mut out = Out { text: String::new(), line: 1, map: vec![] };
    let mut errors: Vec<(String, String)> = vec![];
    let mut fns: Vec<BTreeMap<String, String>> = vec![];
    out.push("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unused_labels, unreachable_code)]");
    out.push("use vstd::prelude::*;\nuse std::marker::PhantomData;");
    let mut secs = vec![];
    let mut files: Vec<(String, usize)> = vec![];
    let mut default: Vec<String> = vec![];
    for s in &specs {
        let text = std::fs::read_to_string(s).unwrap_or_else(|e| panic!("{s}: {e}"));
        for mut sec in spec::parse(&text.replace("$PO", &po)) {
            if sec.kind == "default" {
                default = sec.args.clone();
                continue;
            }
            for d in &default {
                let k = d.split('=').next().unwrap();
                if (sec.kind == "fn" || sec.kind == "type" && d.starts_with("tn:")) && sec.opt(k).is_none() {
                    sec.args.push(d.clone());
                }
            }
            let id = if sec.kind == "raw" { format!("lemmas:{}", sec.args.join(" ")) } else { rewrite::section_id(&sec) };
            let external = ext.contains(&id);
            let res = if sec.kind == "raw" { Ok(sec.body.clone()) } else { rewrite::emit(&mut lib, &sec, &po, external) };
            let res = match res {
                Err(e) if sec.kind == "fn" && !external => {
                    errors.push((id.clone(), e.clone()));
                    ext.insert(id.clone());
                    rewrite::emit(&mut lib, &sec, &po, true)
                }
                r => r,
            };
            let text = match res {
                Ok(t) => t,
                Err(e) => {
                    errors.push((id.clone(), e));
                    continue;
                }
            };
            secs.push((sec, id, text));
        }
        files.push((module_name(s), secs.len()));
    }
    // The functions a property depends on: those marked with it (P=...), and
    // everything they may call, found by name.
    let mut need: Vec<bool> = vec![prop.is_none(); secs.len()];
    if let Some(p) = &prop {
        let mut by_name: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut todo = vec![];
        for (i, (sec, _, _)) in secs.iter().enumerate() {
            if sec.kind == "fn" {
                by_name.entry(fn_name(sec)).or_default().push(i);
                if sec.opt("P").is_some_and(|x| x.split(',').any(|y| y == p)) {
                    todo.push(i);
                }
            }
        }
        while let Some(i) = todo.pop() {
            if std::mem::replace(&mut need[i], true) {
                continue;
            }
            for id in idents(&secs[i].2) {
                for j in by_name.get(&id).into_iter().flatten() {
                    if !need[*j] {
                        todo.push(*j);
                    }
                }
            }
        }
    }
    // One module per contract file: Verus checks modules in parallel.
    let mut next = files.iter().peekable();
    let mut open = false;
    for (i, (sec, id, text)) in secs.iter().enumerate() {
        while next.peek().is_some_and(|_| !open) {
            out.push(&format!("pub use {0}::*;\npub mod {0} {{\nuse super::*;\nverus! {{", next.peek().unwrap().0));
            open = true;
        }
        let l0 = out.line;
        if sec.kind == "fn" {
            let mut state = if ext.contains(id) { "undecided" } else { "checked" };
            if need[i] {
                out.push(text);
            } else {
                state = "other";
                match rewrite::emit(&mut lib, sec, &po, true) {
                    Ok(t) => out.push(&t),
                    Err(_) => out.push(text),
                }
            }
            let mut m = BTreeMap::new();
            m.insert("id".into(), id.clone());
            m.insert("state".into(), state.to_string());
            fns.push(m);
        } else {
            out.push(text);
        }
        out.map.push((l0, out.line - 1, id.clone()));
        while open && next.peek().is_some_and(|f| f.1 <= i + 1) {
            out.push("} // verus!\n}");
            next.next();
            open = false;
        }
    }
    out.push("fn main() {}");
    std::fs::write(out_rs, &out.text).unwrap();
    let esc = |s: &str| format!("{:?}", s);
    let mut j = String::from("{\"errors\":[");
    j += &errors.iter().map(|(f, e)| format!("[{},{}]", esc(f), esc(e))).collect::<Vec<_>>().join(",");
    j += "],\"fns\":[";
    j += &fns.iter().map(|m| format!("[{},{}]", esc(&m["id"]), esc(&m["state"]))).collect::<Vec<_>>().join(",");
    j += "],\"map\":[";
    j += &out
        .map
        .iter()
        .map(|(a, b, f)| format!("[{a},{b},{}]", esc(f)))
        .collect::<Vec<_>>()
        .join(",");
    j += "]}";
    std::fs::write(out_json, j).unwrap();
    for (f, e) in &errors {
        eprintln!("vx: {f}: {e}");
    }
    if !errors.is_empty() {
        std::process::exit(3);
    }
}
