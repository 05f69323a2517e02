//! Source-to-source steps made before the Verus rewrites.
use crate::spec::Section;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// `tn:Old=New`: types of the module that share a name with another one.
/// Type arguments are dropped (the port offset type is fixed), lifetimes kept.
#[derive(Default)]
pub struct TypeNames(pub HashMap<String, String>);

impl TypeNames {
    pub fn of(sec: &Section) -> Self {
        TypeNames(
            sec.args
                .iter()
                .filter_map(|a| a.strip_prefix("tn:")?.split_once('='))
                .map(|(a, b)| (a.to_string(), b.to_string()))
                .collect(),
        )
    }
    pub fn rename(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = format_ident!("{}", n);
        }
    }
}

impl VisitMut for TypeNames {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let mut v: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if v.len() >= 2 && v[0].ident == "portgraph" {
            // another module's type
            v.remove(0);
        } else {
            while v.len() >= 2 && ["self", "iter", "super"].contains(&v[0].ident.to_string().as_str()) {
                v.remove(0);
            }
            if self.0.contains_key(&v[0].ident.to_string()) {
                self.rename(&mut v[0].ident);
                if let PathArguments::AngleBracketed(a) = &mut v[0].arguments {
                    let keep: Vec<GenericArgument> = a.args.iter().filter(|x| matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
                    if keep.is_empty() {
                        v[0].arguments = PathArguments::None;
                    } else {
                        a.args = keep.into_iter().collect();
                    }
                }
            }
        }
        p.segments = v.into_iter().collect();
    }
}

fn closure_of<'a>(e: &'a Expr, locals: &'a HashMap<String, ExprClosure>) -> Option<(ExprClosure, Option<String>)> {
    match e {
        Expr::Closure(c) => Some((c.clone(), None)),
        Expr::Path(p) => {
            let n = p.path.get_ident()?.to_string();
            Some((locals.get(&n)?.clone(), Some(n)))
        }
        _ => None,
    }
}

/// `defer=METHOD`: `X.METHOD(args, |a, b| BODY);` runs BODY once per call.
/// The calls are recorded, and BODY is run for each of them afterwards: the
/// closure cannot see the graph, which is mutably borrowed by the method.
pub struct Defer {
    pub method: String,
    pub done: bool,
    pub err: Option<String>,
}

impl VisitMut for Defer {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut locals: HashMap<String, ExprClosure> = HashMap::new();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        locals.insert(i.ident.to_string(), c.clone());
                    }
                }
            }
        }
        let mut out: Vec<Stmt> = vec![];
        let mut used: Vec<String> = vec![];
        for s in b.stmts.drain(..) {
            let mut t = s.clone();
            if let Stmt::Expr(Expr::MethodCall(m), _) = &mut t {
                if m.method == self.method {
                    if let Some((c, name)) = m.args.last().and_then(|e| closure_of(e, &locals)) {
                        if c.inputs.len() != 2 {
                            self.err = Some("deferred closure: two arguments expected".into());
                        }
                        struct Ret(bool);
                        impl VisitMut for Ret {
                            fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
                                self.0 = true;
                            }
                            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                        }
                        let mut body = (*c.body).clone();
                        let mut r = Ret(false);
                        r.visit_expr_mut(&mut body);
                        if r.0 {
                            self.err = Some("deferred closure returns".into());
                        }
                        used.extend(name);
                        self.done = true;
                        *m.args.last_mut().unwrap() = parse_quote!(&mut __rec);
                        let body: Block = match body {
                            Expr::Block(b) => b.block,
                            e => parse_quote!({ #e; }),
                        };
                        out.push(parse_quote!(let mut __rec = VRec::new();));
                        out.push(Stmt::Expr(Expr::MethodCall(m.clone()), Some(Default::default())));
                        if !body.stmts.is_empty() {
                            let (p, q) = (&c.inputs[0], &c.inputs[1]);
                            let stmts = &body.stmts;
                            out.push(parse_quote!(let mut __d: usize = 0;));
                            out.push(Stmt::Expr(
                                parse_quote!(while __d < __rec.len() {
                                    let #p = __rec.a(__d);
                                    let #q = __rec.b(__d);
                                    { #(#stmts)* }
                                    __d = __d + 1;
                                }),
                                None,
                            ));
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        // The closure only runs where it was passed.
        b.stmts = out
            .into_iter()
            .filter(|s| match s {
                Stmt::Local(l) => !matches!(&l.pat, Pat::Ident(i) if used.contains(&i.ident.to_string())),
                _ => true,
            })
            .collect();
    }
}

/// `let X: HashMap<_, _> = S.filter(|&p| C).map(|p| V).collect();`
///   ==>  `let mut X = HashMap::new(); for p in S { if C { let (k, v) = V; X.insert(k, v); } }`
/// `let X: HashSet<_> = S.collect();`  ==>  a loop of insertions.
pub struct Collect {
    /// `elem=T`: the `_` of `Vec<_>`
    pub elem: Option<Type>,
}

impl VisitMut for Collect {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match collected(&s, &self.elem) {
                Some(v) => out.extend(v),
                None => out.push(s),
            }
        }
        b.stmts = out;
    }
}

/// `let (A, B): (Vec<_>, Vec<_>) = S.partition_map(|p| E);`  ==>  a loop of pushes
fn partitioned(l: &Local) -> Option<Vec<Stmt>> {
    let Pat::Type(pt) = &l.pat else { return None };
    let Pat::Tuple(t) = &*pt.pat else { return None };
    let m = call(&l.init.as_ref()?.expr, "partition_map", 1)?;
    let (p, v) = arg_closure(m)?;
    let src = &m.receiver;
    let (a, b) = (&t.elems[0], &t.elems[1]);
    Some(vec![
        parse_quote!(let mut #a = Vec::new();),
        parse_quote!(let mut #b = Vec::new();),
        Stmt::Expr(
            parse_quote!(for #p in #src {
                let __side = #v;
                match __side { Either::Left(__x) => #a.push(__x), Either::Right(__x) => #b.push(__x) }
            }),
            None,
        ),
    ])
}

fn call<'a>(e: &'a Expr, name: &str, n: usize) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m),
        _ => None,
    }
}

fn arg_closure(m: &ExprMethodCall) -> Option<(Pat, Expr)> {
    match &m.args[0] {
        Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
        _ => None,
    }
}

fn collected(s: &Stmt, elem: &Option<Type>) -> Option<Vec<Stmt>> {
    let Stmt::Local(l) = s else { return None };
    if let Some(v) = partitioned(l) {
        return Some(v);
    }
    if let Some(v) = last_of(l) {
        return Some(v);
    }
    let Pat::Type(pt) = &l.pat else { return None };
    let Pat::Ident(x) = &*pt.pat else { return None };
    let x = &x.ident;
    let ty = pt.ty.to_token_stream().to_string().replace(' ', "");
    let c = call(&l.init.as_ref()?.expr, "collect", 0)?;
    let t = &pt.ty;
    if let Some((init, c)) = successors(&c.receiver) {
        if ty.starts_with("Vec<") && c.inputs.len() == 1 {
            let (p, body) = (&c.inputs[0], ends(&c.body));
            let t: Type = match elem {
                Some(e) => parse_quote!(Vec<#e>),
                None => (**t).clone(),
            };
            return Some(vec![
                parse_quote!(let mut #x: #t = Vec::new();),
                parse_quote!(let mut __succ = #init;),
                Stmt::Expr(parse_quote!(while let Some(__c) = __succ { #x.push(__c); let #p = &__c; __succ = #body; }), None),
            ]);
        }
        return None;
    }
    if let Some((init, p, i, mut body, last)) = scanned(&c.receiver) {
        if !ty.starts_with("Vec<") {
            return None;
        }
        let t: Type = match elem {
            Some(e) => parse_quote!(Vec<#e>),
            None => (**t).clone(),
        };
        body.push(parse_quote!(#x.push(#last);));
        return Some(vec![
            parse_quote!(let mut #x: #t = Vec::new();),
            parse_quote!(let mut __st = #init;),
            parse_quote!(let mut __i: usize = 0;),
            Stmt::Expr(parse_quote!(loop { let #p = &mut __st; let #i = __i; #(#body)* __i += 1; }), None),
        ]);
    }
    if ty.starts_with("HashSet<") {
        let src = &c.receiver;
        let e = format_ident!("__{}", x);
        return Some(vec![
            parse_quote!(let mut #x: #t = HashSet::new();),
            Stmt::Expr(parse_quote!(for #e in #src { #x.insert(#e); }), None),
        ]);
    }
    if !ty.starts_with("HashMap<") {
        return None;
    }
    let m = call(&c.receiver, "map", 1)?;
    let (mp, mv) = arg_closure(m)?;
    let f = call(&m.receiver, "filter", 1)?;
    let (fp, fv) = arg_closure(f)?;
    let Pat::Reference(fp) = fp else { return None };
    let fp = fp.pat;
    let src = &f.receiver;
    let body: Stmt = if fp.to_token_stream().to_string() == mp.to_token_stream().to_string() {
        Stmt::Expr(parse_quote!(if #fv { let (__k, __v) = #mv; #x.insert(__k, __v); }), None)
    } else {
        Stmt::Expr(parse_quote!(if #fv { let #mp = #fp; let (__k, __v) = #mv; #x.insert(__k, __v); }), None)
    };
    // The condition is computed before it is tested (it may be a block).
    let mut body = body;
    if let Stmt::Expr(Expr::If(i), _) = &mut body {
        let cond = i.cond.clone();
        i.cond = parse_quote!(__keep);
        let w = quote!(let __keep = #cond;);
        let w: Stmt = parse_quote!(#w);
        return Some(vec![
            parse_quote!(let mut #x: #t = HashMap::new();),
            Stmt::Expr(parse_quote!(for #fp in #src { #w #body }), None),
        ]);
    }
    None
}

/// `iter::successors(INIT, |x| NEXT)`
fn successors(e: &Expr) -> Option<(Expr, ExprClosure)> {
    let Expr::Call(c) = e else { return None };
    let Expr::Path(p) = &*c.func else { return None };
    if p.path.segments.last()?.ident != "successors" || c.args.len() != 2 {
        return None;
    }
    match &c.args[1] {
        Expr::Closure(f) => Some((c.args[0].clone(), f.clone())),
        _ => None,
    }
}

/// `(0..).scan(INIT, |STATE, I| { STMTS; Some(X) })`
fn scanned(e: &Expr) -> Option<(Expr, Pat, Pat, Vec<Stmt>, Expr)> {
    let m = call(e, "scan", 2)?;
    let mut src = &*m.receiver;
    while let Expr::Paren(p) = src {
        src = &p.expr;
    }
    if src.to_token_stream().to_string().replace(' ', "") != "0.." {
        return None;
    }
    let Expr::Closure(c) = &m.args[1] else { return None };
    if c.inputs.len() != 2 {
        return None;
    }
    let Expr::Block(b) = ends(&c.body) else { return None };
    let mut stmts = b.block.stmts;
    let Some(Stmt::Expr(Expr::Call(t), None)) = stmts.pop() else { return None };
    if t.func.to_token_stream().to_string() != "Some" {
        return None;
    }
    Some((m.args[0].clone(), c.inputs[0].clone(), c.inputs[1].clone(), stmts, t.args[0].clone()))
}

/// `let X = iterate(INIT, |u| NEXT).take_while(|u| COND).last()…;`  ==>  a loop
fn last_of(l: &Local) -> Option<Vec<Stmt>> {
    fn peel(e: &Expr, n: usize) -> Option<(&Expr, usize)> {
        match e {
            Expr::Try(t) => peel(&t.expr, n + 1),
            e => Some((&call(e, "last", 0)?.receiver, n)),
        }
    }
    let (src, tries) = peel(&l.init.as_ref()?.expr, 0)?;
    let t = call(src, "take_while", 1)?;
    let (cp, cond) = arg_closure(t)?;
    let Expr::Call(it) = &*t.receiver else { return None };
    let Expr::Path(p) = &*it.func else { return None };
    if p.path.segments.last()?.ident != "iterate" || it.args.len() != 2 {
        return None;
    }
    let Expr::Closure(f) = &it.args[1] else { return None };
    let (init, np, next) = (&it.args[0], &f.inputs[0], &f.body);
    let mut l = l.clone();
    let mut e: Expr = parse_quote!(__last);
    for _ in 0..tries {
        e = parse_quote!(#e?);
    }
    l.init.as_mut()?.expr = Box::new(e);
    Some(vec![
        parse_quote!(let mut __cur = #init;),
        parse_quote!(let mut __last = None;),
        Stmt::Expr(
            parse_quote!(loop {
                let __keep = { let #cp = __cur; #cond };
                if !__keep { break; }
                let __next = { let #np = __cur; #next };
                __last = Some(__cur);
                __cur = __next;
            }),
            None,
        ),
        Stmt::Local(l),
    ])
}

/// The sequence ends where the closure returns `None`.
fn ends(body: &Expr) -> Expr {
    struct Ends;
    impl VisitMut for Ends {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::Try(t) => {
                    let x = &t.expr;
                    *e = parse_quote!(match #x { Some(__v) => __v, None => break });
                }
                Expr::Return(r) => {
                    if let Some(x) = &r.expr {
                        if x.to_token_stream().to_string() == "None" {
                            *e = parse_quote!(break);
                        }
                    }
                }
                _ => {}
            }
        }
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    }
    let mut body = body.clone();
    Ends.visit_expr_mut(&mut body);
    body
}

/// `garg:T::f=E`: calls of `T::f` (an assumed function) take the ghost argument E.
pub struct GhostArg {
    pub path: String,
    pub arg: Expr,
}

impl VisitMut for GhostArg {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if c.func.to_token_stream().to_string().replace(' ', "").ends_with(&self.path) {
            let a = &self.arg;
            c.args.push(parse_quote!(Ghost(#a)));
        }
    }
}

/// `K { a, b } if G => A, K { .. } => B`  ==>  `K { a, b } => if G { A } else { B }`
pub struct Guards;

impl VisitMut for Guards {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let path = |p: &Pat| match p {
            Pat::Struct(s) => Some(s.path.to_token_stream().to_string()),
            _ => None,
        };
        let mut i = 0;
        while i + 1 < m.arms.len() {
            let same = path(&m.arms[i].pat).is_some() && path(&m.arms[i].pat) == path(&m.arms[i + 1].pat);
            let bare = matches!(&m.arms[i + 1].pat, Pat::Struct(s) if s.fields.is_empty());
            if same && bare && m.arms[i + 1].guard.is_none() {
                if let Some((_, g)) = m.arms[i].guard.take() {
                    let b = m.arms.remove(i + 1);
                    let (a, b) = (&m.arms[i].body, &b.body);
                    m.arms[i].body = Box::new(parse_quote!({ if #g { #a } else { #b } }));
                    m.arms[i].comma = Some(Default::default());
                }
            }
            i += 1;
        }
    }
}

/// `eager`: lazy adapter chains become loops that build the list of items.
/// (`filter`, `map`, `filter_map`, `flat_map`, `chain`; then `count`, `any`,
/// `all`, or the items themselves, at the end of the function.)
#[derive(Default)]
pub struct Eager {
    n: usize,
    pub done: usize,
}

type Sink<'a> = dyn Fn(&mut Eager, Ident) -> Vec<Stmt> + 'a;

fn lazy(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "filter" | "map" | "filter_map" | "flat_map" if m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => true,
                "chain" => true,
                "into_iter" | "copied" | "cloned" => lazy(&m.receiver),
                _ => false,
            }
        }
        Expr::Paren(p) => lazy(&p.expr),
        Expr::If(_) | Expr::Match(_) => {
            let t = e.to_token_stream().to_string();
            t.contains("Either :: Left") && t.contains("Either :: Right")
        }
        _ => false,
    }
}

fn block_value(b: &Block) -> Option<&Expr> {
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => Some(e),
        _ => None,
    }
}

/// `let P = e` for a closure parameter P taking `e` by value, or by reference.
fn bind(p: &Pat, e: &Ident, by_ref: bool) -> Stmt {
    match (p, by_ref) {
        (Pat::Type(t), _) => bind(&t.pat, e, by_ref),
        (Pat::Reference(r), true) => {
            let q = &r.pat;
            parse_quote!(let #q = #e;)
        }
        (_, true) => parse_quote!(let #p = &#e;),
        _ => parse_quote!(let #p = #e;),
    }
}

impl Eager {
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("__e{}", self.n - 1)
    }

    fn items(&mut self, e: &Expr, sink: &Sink) -> Vec<Stmt> {
        if let Expr::Paren(p) = e {
            return self.items(&p.expr, sink);
        }
        match e {
            Expr::Block(b) => {
                if let Some(v) = block_value(&b.block) {
                    let mut out = b.block.stmts.clone();
                    out.pop();
                    out.extend(self.items(v, sink));
                    return parse_quote!({ #(#out)* });
                }
            }
            Expr::If(i) if lazy(e) => {
                if let (Some(_), Some((_, f))) = (block_value(&i.then_branch), &i.else_branch) {
                    let c = &i.cond;
                    let t = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                    let t = self.items(&t, sink);
                    let f = self.items(f, sink);
                    return vec![Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#f)* }), None)];
                }
            }
            Expr::Match(m) if lazy(e) => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let t = self.items(&a.body, sink);
                    a.body = parse_quote!({ #(#t)* });
                    a.comma = Some(Default::default());
                }
                return vec![Stmt::Expr(Expr::Match(m), None)];
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "Either::Left" || f == "Either::Right" {
                    return self.items(&c.args[0], sink);
                }
                if (f.ends_with("iter::empty") || f == "empty") && c.args.is_empty() {
                    return vec![];
                }
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if m.args.is_empty() && ["into_iter", "copied", "cloned"].contains(&name.as_str()) && lazy(&m.receiver) {
                return self.items(&m.receiver, sink);
            }
            if name == "chain" {
                let mut a = self.items(&m.receiver, sink);
                a.extend(self.items(&m.args[0], sink));
                return a;
            }
            if let (Some(Expr::Closure(c)), true) = (m.args.first(), m.args.len() == 1) {
                let (p, v) = (c.inputs[0].clone(), (*c.body).clone());
                match name.as_str() {
                    "filter" => {
                        return self.items(&m.receiver, &|s: &mut Eager, x: Ident| {
                            let b = bind(&p, &x, true);
                            let t = sink(s, x);
                            parse_quote!({ let __keep = { #b #v }; if __keep { #(#t)* } })
                        })
                    }
                    "map" => {
                        return self.items(&m.receiver, &|s: &mut Eager, x: Ident| {
                            let b = bind(&p, &x, false);
                            let y = s.fresh();
                            let t = sink(s, y.clone());
                            parse_quote!(let #y = { #b #v }; #(#t)*)
                        })
                    }
                    "filter_map" => {
                        return self.items(&m.receiver, &|s: &mut Eager, x: Ident| {
                            let b = bind(&p, &x, false);
                            let y = s.fresh();
                            let t = sink(s, y.clone());
                            parse_quote!(let __o = { #b #v }; if let Some(#y) = __o { #(#t)* })
                        })
                    }
                    "flat_map" => {
                        return self.items(&m.receiver, &|s: &mut Eager, x: Ident| {
                            let b = bind(&p, &x, false);
                            let mut t = s.items(&v, sink);
                            t.insert(0, b);
                            t
                        })
                    }
                    _ => {}
                }
            }
        }
        let mut src = e.clone();
        if let Expr::MethodCall(m) = e {
            if m.method == "into_iter" && m.args.is_empty() {
                src = (*m.receiver).clone();
            }
        }
        let x = self.fresh();
        let t = sink(self, x.clone());
        vec![Stmt::Expr(parse_quote!(for #x in #src { #(#t)* }), None)]
    }

    fn list(&mut self, e: &Expr) -> Expr {
        self.done += 1;
        let t = self.items(e, &|_: &mut Eager, x: Ident| parse_quote!(__out.push(#x);));
        parse_quote!({ let mut __out = VList::new(); #(#t)* __out })
    }

    pub fn tail(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }

    fn tail_expr(&mut self, e: &mut Expr) {
        if let Some((init, c)) = successors(e) {
            self.done += 1;
            let (p, body) = (&c.inputs[0], ends(&c.body));
            *e = parse_quote!({
                let mut __out = VList::new();
                let mut __succ = #init;
                while let Some(__c) = __succ { __out.push(__c); let #p = &__c; __succ = #body; }
                __out
            });
        } else if lazy(e) {
            *e = self.list(e);
        }
    }
}

impl VisitMut for Eager {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            // `for P in CHAIN { BODY }`
            if lazy(&f.expr) && f.label.is_none() {
                let (p, b) = (&f.pat, &f.body);
                let k = self.n;
                let t = self.items(&f.expr, &|_: &mut Eager, x: Ident| parse_quote!(let #p = #x; #b));
                let one = t.len() == 1 && t.to_token_stream_string().matches("for __e").count() == 1;
                if one || !f.body.to_token_stream().to_string().contains("break") {
                    self.done += 1;
                    *e = parse_quote!({ #(#t)* });
                } else {
                    self.n = k;
                }
            }
            return;
        }
        let Expr::MethodCall(m) = e else { return };
        let quant = ["any", "all", "position"].contains(&m.method.to_string().as_str());
        if !lazy(&m.receiver) && !(quant && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_))) {
            return;
        }
        match m.method.to_string().as_str() {
            "count" | "collect" => {
                let l = self.list(&m.receiver);
                *e = if m.method == "count" { parse_quote!(#l.count()) } else { parse_quote!(#l.collect()) };
            }
            k @ ("any" | "all") => {
                let Some((p, v)) = arg_closure(m) else { return };
                let all = k == "all";
                self.done += 1;
                let r = format_ident!("__{}", k);
                let t = self.items(&m.receiver, &|_: &mut Eager, x: Ident| {
                    let b = bind(&p, &x, false);
                    if all {
                        parse_quote!(let __keep = { #b #v }; if !__keep { #r = false; break; })
                    } else {
                        parse_quote!(let __keep = { #b #v }; if __keep { #r = true; break; })
                    }
                });
                // only one loop can be left by `break`
                if t.len() == 1 {
                    *e = parse_quote!({ let mut #r = #all; #(#t)* #r });
                }
            }
            "position" => {
                let Some((p, v)) = arg_closure(m) else { return };
                self.done += 1;
                let t = self.items(&m.receiver, &|_: &mut Eager, x: Ident| {
                    let b = bind(&p, &x, false);
                    parse_quote!(let __keep = { #b #v }; if __keep { __pos = Some(__at); break; } __at = __at + 1;)
                });
                if t.len() == 1 {
                    *e = parse_quote!({ let mut __pos: Option<usize> = None; let mut __at: usize = 0; #(#t)* __pos });
                }
            }
            _ => {}
        }
    }

    /// Local closures that are passed to adapters are inlined.
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut locals: HashMap<String, ExprClosure> = HashMap::new();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        locals.insert(i.ident.to_string(), c.clone());
                    }
                }
            }
        }
        if !locals.is_empty() {
            struct Inline<'a>(&'a HashMap<String, ExprClosure>, Vec<String>);
            impl VisitMut for Inline<'_> {
                fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                    visit_mut::visit_expr_method_call_mut(self, m);
                    let adapter = ["filter", "map", "filter_map", "flat_map", "any", "all", "position"];
                    if m.args.len() == 1 && adapter.contains(&m.method.to_string().as_str()) {
                        if let Some((c, Some(n))) = closure_of(&m.args[0], self.0) {
                            m.args[0] = Expr::Closure(c);
                            self.1.push(n);
                        }
                    }
                }
            }
            let mut i = Inline(&locals, vec![]);
            for s in b.stmts.iter_mut() {
                i.visit_stmt_mut(s);
            }
            let used = i.1;
            b.stmts.retain(|s| match s {
                Stmt::Local(l) => !matches!(&l.pat, Pat::Ident(i) if used.contains(&i.ident.to_string())),
                _ => true,
            });
        }
        visit_mut::visit_block_mut(self, b);
    }
}

trait Tokens {
    fn to_token_stream_string(&self) -> String;
}
impl Tokens for Vec<Stmt> {
    fn to_token_stream_string(&self) -> String {
        let v = self;
        quote!(#(#v)*).to_string()
    }
}

/// `Box<dyn FnMut(A) -> R>`  ==>  `VFn1<A, R>`; a call of one (named in `fnvars=`)  ==>  `f.vcall(a)`;
/// `Box::new(f)`  ==>  `f`;  `opt.as_mut()`  ==>  `(&mut opt)`;  `x[i]` for x in `bix=`  ==>  `x.v_at(i)`.
#[derive(Default)]
pub struct BoxFns {
    pub vars: Vec<String>,
    pub bix: Vec<String>,
    pub on: bool,
}

impl BoxFns {
    pub fn of(sec: &Section) -> Self {
        let list = |k: &str| -> Vec<String> { sec.opt(k).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default() };
        BoxFns { vars: list("fnvars"), bix: list("bix"), on: sec.opt("fnvars").is_some() }
    }
    fn named(list: &[String], e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| list.contains(&i.to_string())),
            Expr::Field(f) => list.contains(&f.member.to_token_stream().to_string()),
            _ => false,
        }
    }
}

fn boxed_fn(t: &Type) -> Option<Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "Box" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let GenericArgument::Type(Type::TraitObject(o)) = a.args.first()? else { return None };
    let TypeParamBound::Trait(b) = o.bounds.first()? else { return None };
    let f = b.path.segments.last()?;
    if f.ident != "FnMut" && f.ident != "Fn" {
        return None;
    }
    let PathArguments::Parenthesized(x) = &f.arguments else { return None };
    let ReturnType::Type(_, r) = &x.output else { return None };
    let n = format_ident!("VFn{}", x.inputs.len());
    let i = &x.inputs;
    Some(parse_quote!(#n<#i, #r>))
}

impl VisitMut for BoxFns {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Some(x) = boxed_fn(t) {
            *t = x;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if Self::named(&self.vars, &c.func) => {
                let (f, a) = (&c.func, &c.args);
                *e = parse_quote!(#f.vcall(#a));
            }
            Expr::Call(c) if self.on && c.func.to_token_stream().to_string() == "Box :: new" => *e = c.args[0].clone(),
            Expr::MethodCall(m) if self.on && m.method == "as_mut" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!((&mut #r));
            }
            Expr::Index(i) if Self::named(&self.bix, &i.expr) => {
                let (x, k) = (&i.expr, &i.index);
                *e = parse_quote!(#x.v_at(#k));
            }
            _ => {}
        }
    }
}

/// `X.sort_by_key(|n| E);`  ==>  the keys in a vector by a loop, and `v_sort_keyed(&mut X, keys)`;
/// `X.sort();`  ==>  `v_sort(&mut X);`
pub struct Sorts;

impl VisitMut for Sorts {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for s in &mut b.stmts {
            let Stmt::Expr(e, Some(_)) = s else { continue };
            for name in ["sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"] {
                if let Some(m) = call(e, name, 1) {
                    if let Some((p, v)) = arg_closure(m) {
                        let x = &m.receiver;
                        *e = parse_quote!({
                            let mut __keys = Vec::new();
                            for #p in #x.iter() {
                                let __key = #v;
                                __keys.push(__key);
                            }
                            v_sort_keyed(&mut #x, __keys);
                        });
                        break;
                    }
                }
            }
            for name in ["sort", "sort_unstable"] {
                if let Some(m) = call(e, name, 0) {
                    let x = &m.receiver;
                    *e = parse_quote!(v_sort(&mut #x));
                    break;
                }
            }
        }
    }
}

/// `if let P(&x) = E { B }`, `while let ..`, `P(&x) => B`  ==>  `P(x)` with `let x = *x;` before B
/// (at least one level inside a pattern).
pub struct RefPats;

fn unref(p: &mut Pat) -> Vec<Stmt> {
    struct V(Vec<Stmt>);
    impl VisitMut for V {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if let Pat::Ident(i) = &*r.pat {
                    let x = &i.ident;
                    self.0.push(parse_quote!(let #x = *#x;));
                    *p = parse_quote!(#x);
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
        fn visit_expr_mut(&mut self, _: &mut Expr) {}
    }
    let mut v = V(vec![]);
    if matches!(p, Pat::TupleStruct(_) | Pat::Tuple(_)) {
        v.visit_pat_mut(p);
    }
    v.0
}

impl VisitMut for RefPats {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        visit_mut::visit_expr_while_mut(self, w);
        if let Expr::Let(l) = &mut *w.cond {
            w.body.stmts.splice(0..0, unref(&mut l.pat));
        }
    }
    fn visit_expr_if_mut(&mut self, w: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, w);
        if let Expr::Let(l) = &mut *w.cond {
            w.then_branch.stmts.splice(0..0, unref(&mut l.pat));
        }
    }
    fn visit_expr_for_loop_mut(&mut self, w: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, w);
        w.body.stmts.splice(0..0, unref(&mut w.pat));
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if a.guard.is_none() {
            let l = unref(&mut a.pat);
            if !l.is_empty() {
                let b = &a.body;
                a.body = parse_quote!({ #(#l)* #b });
            }
        }
    }
}
