//! Loads source files, expanding the item macros that only substitute names.
use proc_macro2::{Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::*;

pub struct Lib {
    dir: String,
    files: HashMap<String, Vec<Item>>,
}

fn substitute(ts: TokenStream, env: &HashMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let Some(TokenTree::Ident(i)) = it.next() else { panic!("macro body") };
                out.extend(env.get(&i.to_string()).cloned().unwrap_or_else(|| panic!("macro variable {i}")));
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), substitute(g.stream(), env));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t]),
        }
    }
    out
}

fn cfg_excluded(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && matches!(&a.meta, Meta::List(l) if {
                let s = l.tokens.to_string();
                s.contains("test") || s.contains("pyo3") || s.contains("serde") || s.contains("proptest")
            })
    })
}

fn expand(items: Vec<Item>, macros: &mut HashMap<String, (Vec<String>, TokenStream)>, out: &mut Vec<Item>) {
    for it in items {
        match it {
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                // one rule of the form ($a:ident, $b:ident) => { ... };
                let name = m.ident.unwrap().to_string();
                let mut t = m.mac.tokens.into_iter();
                let Some(TokenTree::Group(pat)) = t.next() else { continue };
                t.next();
                t.next();
                let Some(TokenTree::Group(body)) = t.next() else { continue };
                let mut vars = vec![];
                let mut p = pat.stream().into_iter();
                while let Some(x) = p.next() {
                    if let TokenTree::Punct(q) = &x {
                        if q.as_char() == '$' {
                            vars.push(p.next().unwrap().to_string());
                        }
                    }
                }
                macros.insert(name, (vars, body.stream()));
            }
            Item::Macro(m) => {
                let Some(name) = m.mac.path.get_ident().map(|i| i.to_string()) else { continue };
                let Some((vars, body)) = macros.get(&name).cloned() else { continue };
                let vals: Vec<TokenStream> = m
                    .mac
                    .tokens
                    .into_iter()
                    .filter(|t| !matches!(t, TokenTree::Punct(_)))
                    .map(|t| t.into())
                    .collect();
                let env: HashMap<_, _> = vars.into_iter().zip(vals).collect();
                let f: File = parse2(substitute(body, &env)).expect("macro expansion");
                expand(f.items, macros, out);
            }
            Item::Mod(m) if cfg_excluded(&m.attrs) => {}
            Item::Impl(i) if cfg_excluded(&i.attrs) => {}
            Item::Impl(mut i) => {
                let mut items = vec![];
                for x in i.items {
                    match x {
                        ImplItem::Macro(m) if m.mac.path.is_ident("delegate") => items.extend(delegate(m.mac.tokens).into_iter().map(ImplItem::Fn)),
                        x => items.push(x),
                    }
                }
                i.items = items;
                out.push(Item::Impl(i));
            }
            it => out.push(it),
        }
    }
}

/// `delegate! { to E { #[call(g)] fn f(&self, a: A) -> T; } }`  ==>  `fn f(&self, a: A) -> T { E.g(a) }`
fn delegate(ts: TokenStream) -> Vec<ImplItemFn> {
    let mut out = vec![];
    let mut it = ts.into_iter();
    while let Some(t) = it.next() {
        // to EXPR { ... }
        if !matches!(&t, TokenTree::Ident(i) if i == "to") {
            continue;
        }
        let mut e = TokenStream::new();
        let body = loop {
            match it.next() {
                Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Brace => break g,
                Some(t) => e.extend([t]),
                None => return out,
            }
        };
        let Ok(e) = parse2::<Expr>(e) else { continue };
        let mut sig = TokenStream::new();
        for t in body.stream() {
            let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';');
            sig.extend([t]);
            if !end {
                continue;
            }
            let Ok(f) = parse2::<TraitItemFn>(std::mem::take(&mut sig)) else { continue };
            let mut name = f.sig.ident.clone();
            let mut other = false;
            for a in &f.attrs {
                if a.path().is_ident("call") {
                    match a.parse_args::<Ident>() {
                        Ok(n) => name = n,
                        Err(_) => other = true,
                    }
                } else if !(a.path().is_ident("inline") || a.path().is_ident("doc") || a.path().is_ident("must_use") || a.path().is_ident("allow")) {
                    other = true;
                }
            }
            if other {
                continue;
            }
            let args: Vec<Pat> = f
                .sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    FnArg::Typed(t) => Some((*t.pat).clone()),
                    _ => None,
                })
                .collect();
            let mut sig = f.sig.clone();
            for a in sig.inputs.iter_mut() {
                if let FnArg::Receiver(r) = a {
                    r.attrs.clear();
                }
            }
            out.push(ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig, block: parse_quote!({ #e.#name(#(#args),*) }) });
        }
    }
    out
}

fn tokens<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// Last path segment of a type, without generics.
pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        t => tokens(t),
    }
}

impl Lib {
    pub fn new(dir: &str) -> Self {
        Lib { dir: dir.into(), files: HashMap::new() }
    }

    pub fn items(&mut self, module: &str) -> std::result::Result<&Vec<Item>, String> {
        if !self.files.contains_key(module) {
            let p = format!("{}/{}.rs", self.dir, module.replace("::", "/"));
            let text = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
            let f = syn::parse_file(&text).map_err(|e| format!("{p}: {e}"))?;
            let mut out = vec![];
            expand(f.items, &mut HashMap::new(), &mut out);
            self.files.insert(module.into(), out);
        }
        Ok(&self.files[module])
    }

    pub fn find_type(&mut self, module: &str, name: &str) -> std::result::Result<Item, String> {
        self.items(module)?
            .iter()
            .find(|i| match i {
                Item::Struct(s) => s.ident == name,
                Item::Enum(e) => e.ident == name,
                _ => false,
            })
            .cloned()
            .ok_or_else(|| format!("type {name} not found in {module}"))
    }

    /// Finds a method (or a free function when `ty` is empty). `of` selects a
    /// trait impl by the text of its trait path.
    pub fn find_fn(
        &mut self,
        module: &str,
        ty: &str,
        name: &str,
        of: Option<&str>,
    ) -> std::result::Result<(Option<ItemImpl>, ImplItemFn), String> {
        let mut found = vec![];
        for it in self.items(module)? {
            match it {
                Item::Fn(f) if ty.is_empty() && f.sig.ident == name => {
                    found.push((
                        None,
                        ImplItemFn {
                            attrs: vec![],
                            vis: f.vis.clone(),
                            defaultness: None,
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                        },
                    ));
                }
                Item::Impl(i) if !ty.is_empty() && type_name(&i.self_ty) == ty => {
                    if let Some(of) = of {
                        let t = i.trait_.as_ref().map(|t| tokens(&t.1)).unwrap_or_default();
                        if t != of {
                            continue;
                        }
                    }
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == name && !cfg_excluded(&f.attrs) {
                                found.push((Some(i.clone()), f.clone()));
                            }
                        }
                    }
                }
                Item::Trait(t) if t.ident == ty => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    found.push((
                                        None,
                                        ImplItemFn {
                                            attrs: vec![],
                                            vis: Visibility::Inherited,
                                            defaultness: None,
                                            sig: f.sig.clone(),
                                            block: b.clone(),
                                        },
                                    ));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        match found.len() {
            1 => Ok(found.pop().unwrap()),
            0 => Err(format!("function {ty}::{name} not found in {module}")),
            n => Err(format!("{n} functions {ty}::{name} in {module}")),
        }
    }

    pub fn find_const(&mut self, module: &str, ty: &str, name: &str) -> std::result::Result<(ItemImpl, ImplItemConst), String> {
        for it in self.items(module)? {
            if let Item::Impl(i) = it {
                if type_name(&i.self_ty) == ty {
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            if c.ident == name {
                                return Ok((i.clone(), c.clone()));
                            }
                        }
                    }
                }
            }
        }
        Err(format!("const {ty}::{name} not found in {module}"))
    }
}
