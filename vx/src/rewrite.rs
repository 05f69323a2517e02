//! The mechanical rewrites applied to every extracted item (listed in DESIGN.md).
use crate::print::Weave;
use crate::source::Lib;
use crate::spec::Section;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

/// Types whose generic arguments are fixed to the default widths.
const MONO: &[&str] = &[
    "NodeIndex", "PortIndex", "MaybeNodeIndex", "MaybePortIndex", "PortOffset", "PortGraph",
    "NodePortOffsets", "LinkError", "Neighbours", "NodeConnections", "MultiPortGraph",
];

struct Rw<'a> {
    /// Generic parameter substitution of the enclosing impl.
    subst: HashMap<String, String>,
    assoc: HashMap<String, Type>,
    width: String,
    diverge: bool,
    loops: usize,
    hints: &'a BTreeMap<String, String>,
    weave: Weave,
    /// FnMut parameters that were turned into recorders.
    recorders: BTreeSet<String>,
    /// closures lifted to methods: name -> (method, extra args)
    lifts: HashMap<String, (String, Vec<String>)>,
    lift_bodies: HashMap<String, ExprClosure>,
    noopt: bool,
    resmap: bool,
    nodebug: bool,
    errors: Vec<String>,
    /// values indexed through a user-defined `Index` impl (the last identifier)
    mapix: Vec<String>,
    phantom: bool,
    /// slice iterators are modelled (`VSl`, `VEnum`, `VZip`)
    slit: bool,
    eager: bool,
    /// type of the result of `find_map`
    found: Option<String>,
    tryopt: bool,
    tries: usize,
    /// fields sliced by a range
    slix: Vec<String>,
    /// calls redirected to another contract of the same function
    calls: HashMap<String, String>,
    /// fields used as `SecondaryMap<_, bool>`
    bits: Vec<String>,
}

fn has_attr_cfg(_: &[Attribute]) -> bool {
    false
}

fn mk_path(s: &str) -> Path {
    parse_str(s).unwrap()
}

impl Rw<'_> {
    fn err(&mut self, s: impl Into<String>) {
        self.errors.push(s.into());
    }

    fn closure1(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
            _ => None,
        }
    }

    fn raw(&mut self, text: String) -> Stmt {
        let k = self.weave.raw.len();
        self.weave.raw.push(text);
        let l = Literal_usize(k);
        parse_quote!(__vx_raw!(#l);)
    }

    fn inv(&mut self, k: usize, is_for: bool) -> Stmt {
        let mut text = self.hints.get(&format!("loop {k}")).cloned().unwrap_or_default();
        text = text.replace("$it", &format!("__it{k}")).replace("$all", &format!("__all{k}"));
        if is_for {
            if !text.contains("ensures") && !text.contains("decreases") {
                text.push_str(&format!("\nensures __it{k}.ok(), __it{k}.rest().len() == 0,\n"));
            }
            if !text.contains("decreases") {
                text.push_str(&format!("decreases __it{k}.rest().len(),\n"));
            }
        }
        let i = self.weave.inv.len();
        self.weave.inv.push(text);
        let l = Literal_usize(i);
        parse_quote!(__vx_inv!(#l);)
    }

    fn hint(&mut self, name: &str) -> Option<Stmt> {
        let t = self.hints.get(&format!("hint {name}"))?.clone();
        self.weave.used.insert(format!("hint {name}"));
        Some(self.raw(t))
    }

    fn mac_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = |m: &Macro| m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated);
        let dbg = name.starts_with("debug_");
        let f = format_ident!("{}", if self.diverge && !dbg { "v_check" } else { "v_assert" });
        if dbg && self.nodebug {
            return Some(parse_quote!(()));
        }
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args(m).ok()?;
                let c = a.first()?;
                Some(parse_quote!(#f(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args(m).ok()?;
                let (x, y) = (&a[0], &a[1]);
                Some(parse_quote!(#f(#x == #y)))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                if self.diverge && name == "panic" {
                    Some(parse_quote!(v_panic()))
                } else {
                    Some(parse_quote!(v_unreachable()))
                }
            }
            "vec" => {
                let rep = m
                    .parse_body_with(|s: syn::parse::ParseStream| {
                        let e: Expr = s.parse()?;
                        s.parse::<Token![;]>()?;
                        Ok((e, s.parse::<Expr>()?))
                    })
                    .ok();
                if let Some((e, n)) = rep {
                    return Some(parse_quote!(v_vec_of(#e, #n)));
                }
                let a = args(m).ok()?;
                if a.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    None
                }
            }
            "matches" => {
                let (e, p) = m
                    .parse_body_with(|s: syn::parse::ParseStream| {
                        let e: Expr = s.parse()?;
                        s.parse::<Token![,]>()?;
                        let p = Pat::parse_multi(s)?;
                        let _: Option<Token![,]> = s.parse()?;
                        Ok((e, p))
                    })
                    .ok()?;
                Some(parse_quote!(match #e { #p => true, _ => false }))
            }
            _ => None,
        }
    }

    fn desugar_for(&mut self, f: ExprForLoop) -> Expr {
        let k = self.loops;
        self.loops += 1;
        let ExprForLoop { pat, expr, mut body, label, .. } = f;
        let mut it_expr = *expr;
        self.visit_expr_mut(&mut it_expr);
        self.visit_block_mut(&mut body);
        let mut pat = *pat;
        self.visit_pat_mut(&mut pat);
        let it = format_ident!("__it{}", k);
        let inv = self.inv(k, true);
        if let Some(h) = self.hint(&format!("loop{k}.start")) {
            body.stmts.insert(0, h);
        }
        if let Some(h) = self.hint(&format!("loop{k}.end")) {
            push_end(&mut body, h);
        }
        let all = self.raw(format!("let ghost __all{k} = __it{k}.rest();"));
        let before = self.hint(&format!("before loop{k}"));
        let after = self.hint(&format!("after loop{k}"));
        let done = self.hint(&format!("loop{k}.done"));
        let label = label.map(|l| quote!(#l));
        parse_quote!({
            let mut #it = v_iter(#it_expr);
            #all
            #before
            #label loop {
                #inv
                match #it.v_next() {
                    None => { #done break; }
                    Some(#pat) => #body
                }
            }
            #after
        })
    }

    fn finish_loop(&mut self, k: usize, body: &mut Block) {
        if let Some(h) = self.hint(&format!("loop{k}.start")) {
            body.stmts.insert(0, h);
        }
        if let Some(h) = self.hint(&format!("loop{k}.end")) {
            push_end(body, h);
        }
        let inv = self.inv(k, false);
        body.stmts.insert(0, inv);
    }
    fn around(&mut self, k: usize, e: Expr) -> Expr {
        let b = self.hint(&format!("before loop{k}"));
        let a = self.hint(&format!("after loop{k}"));
        if a.is_none() && b.is_none() {
            return e;
        }
        parse_quote!({ #b #e; #a })
    }
}

#[allow(non_snake_case)]
fn Literal_usize(k: usize) -> proc_macro2::Literal {
    proc_macro2::Literal::usize_unsuffixed(k)
}

fn push_end(b: &mut Block, h: Stmt) {
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) if !ends_in_unit(e) => {
            let e = e.clone();
            b.stmts.pop();
            b.stmts.push(parse_quote!(let __t = #e;));
            b.stmts.push(h);
            b.stmts.push(Stmt::Expr(parse_quote!(__t), None));
        }
        Some(Stmt::Expr(_, None)) => {
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            b.stmts.push(h)
        }
        _ => b.stmts.push(h),
    }
}

/// Expressions that are statements of unit type in the positions we handle.
fn ends_in_unit(e: &Expr) -> bool {
    match e {
        Expr::ForLoop(_) | Expr::While(_) | Expr::Assign(_) => true,
        Expr::If(i) => i.else_branch.is_none(),
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => ends_in_unit(e),
            _ => true,
        },
        _ => false,
    }
}

fn replace_ident(ts: TokenStream, from: &str, to: &TokenStream) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == from => to.clone(),
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), from, to));
                n.set_span(g.span());
                proc_macro2::TokenTree::Group(n).into()
            }
            t => t.into(),
        })
        .collect()
}

/// Turns the patterns `&x` into `x`, collecting the names.
struct RefPats<'a>(&'a mut Vec<Ident>);
impl VisitMut for RefPats<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                if r.mutability.is_none() && i.mutability.is_none() && i.by_ref.is_none() {
                    self.0.push(i.ident.clone());
                    *p = (*r.pat).clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
}

impl VisitMut for Rw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[0] == "Self" {
                    if let Some(a) = self.assoc.get(&segs[1]).cloned() {
                        *t = a;
                        return;
                    }
                }
                if segs.len() == 1 {
                    if let Some(s) = self.subst.get(&segs[0]) {
                        *t = parse_str(s).unwrap();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::ImplTrait(i) = t {
            for b in i.bounds.iter_mut() {
                if let TypeParamBound::Trait(tb) = b {
                    let l = tb.path.segments.last_mut().unwrap();
                    if l.ident == "Into" {
                        l.ident = format_ident!("VInto");
                    }
                }
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // Range -> VRange, BitField -> BitField_w, drop generics of MONO types.
        let n = p.segments.len();
        for (i, s) in p.segments.iter_mut().enumerate() {
            let name = s.ident.to_string();
            if MONO.contains(&name.as_str()) {
                s.arguments = PathArguments::None;
            } else if name == "BitField" {
                let w = match &s.arguments {
                    PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string(),
                    _ => self.width.clone(),
                };
                s.ident = format_ident!("BitField_{}", w);
                s.arguments = PathArguments::None;
            } else if name == "HashMap" {
                s.ident = format_ident!("VHashMap");
            } else if name == "Range" && i + 1 == n {
                s.ident = format_ident!("VRange");
                s.arguments = PathArguments::None;
            }
        }
        if self.slit {
            let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let to = match segs.last().map(|s| s.as_str()) {
                Some("Iter") if segs.len() > 1 && segs[segs.len() - 2] == "slice" => Some("VSl"),
                Some("Enumerate") => Some("VEnum"),
                Some("Zip") => Some("VZip"),
                _ => None,
            };
            if let Some(to) = to {
                let mut l = p.segments.last().unwrap().clone();
                l.ident = format_ident!("{}", to);
                if to == "VEnum" {
                    // Enumerate<slice::Iter<'a, T>>  ==>  VEnum<'a, T>
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        if let Some(GenericArgument::Type(Type::Path(q))) = a.args.first() {
                            l.arguments = q.path.segments.last().unwrap().arguments.clone();
                        }
                    }
                }
                let mut np = Punctuated::new();
                np.push(l);
                p.segments = np;
                p.leading_colon = None;
            }
        }
        let n = p.segments.len();
        if n > 1 {
            let first = p.segments[0].ident.to_string();
            if ["crate", "std", "super", "core", "itertools"].contains(&first.as_str()) {
                let l = p.segments.last().unwrap().clone();
                let l2 = p.segments[n - 2].clone();
                let keep2 = l2.ident.to_string().chars().next().unwrap().is_uppercase();
                let mut np = Punctuated::new();
                if keep2 {
                    np.push(l2);
                }
                np.push(l);
                p.segments = np;
                p.leading_colon = None;
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Loops are numbered in source order, outermost first.
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.desugar_for(f);
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                if let Expr::Let(l) = &*w.cond {
                    // while let P = X { B }  ==>  loop { let P = X else { break; }; B }
                    let (mut p, mut x) = ((*l.pat).clone(), (*l.expr).clone());
                    self.visit_pat_mut(&mut p);
                    self.visit_expr_mut(&mut x);
                    self.visit_block_mut(&mut w.body);
                    let mut b = w.body.clone();
                    b.stmts.insert(0, parse_quote!(let #p = #x else { break; };));
                    self.finish_loop(k, &mut b);
                    let l = w.label.as_ref().map(|l| quote!(#l));
                    let lp: Expr = parse_quote!(#l loop #b);
                    *e = self.around(k, lp);
                } else {
                    visit_mut::visit_expr_while_mut(self, w);
                    self.finish_loop(k, &mut w.body);
                    let lp = e.clone();
                    *e = self.around(k, lp);
                }
                return;
            }
            Expr::Loop(l) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, l);
                self.finish_loop(k, &mut l.body);
                return;
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_))) => {
                // a `fn` pointer field
                let Expr::Paren(p) = &*c.func else { unreachable!() };
                let (f, a) = (&p.expr, &c.args);
                let mut x: Expr = parse_quote!(#f.vcall(#a));
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n.starts_with("__vx") {
                    return;
                }
                match self.mac_expr(&m.mac) {
                    Some(mut x) => {
                        self.visit_expr_mut(&mut x);
                        *e = x;
                    }
                    None => self.err(format!("unsupported macro {n}!")),
                }
                return;
            }
            // U::max_value()  ==>  <u32 as NumU>::max_value()
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 2 => {
                let s = p.path.segments[0].ident.to_string();
                if let (Some(t), true) = (self.subst.get(&s), s != "Self") {
                    let t: Type = parse_str(t).unwrap();
                    let l = p.path.segments[1].ident.clone();
                    *e = parse_quote!(<#t as NumU>::#l);
                    return;
                }
            }
            Expr::Struct(st) if !self.phantom => {
                // Phantom fields carry no data.
                st.fields = st
                    .fields
                    .iter()
                    .filter(|f| !matches!(&f.expr, Expr::Path(p) if p.path.segments.last().unwrap().ident == "PhantomData"))
                    .cloned()
                    .collect();
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = if b.stmts.len() == 1 && matches!(b.stmts[0], Stmt::Expr(_, None)) {
                    let Stmt::Expr(x, _) = b.stmts[0].clone() else { unreachable!() };
                    x
                } else {
                    parse_quote!(#b)
                };
                self.visit_expr_mut(e);
                return;
            }
            // array patterns
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) => {
                match self.array_match(m) {
                    Some(x) => {
                        *e = x;
                        self.visit_expr_mut(e);
                    }
                    None => self.err("unsupported array pattern"),
                }
                return;
            }
            // E.as_mut()[k]  ==>  E[k], for arrays
            Expr::Index(ix) if matches!(&*ix.expr, Expr::MethodCall(m) if m.method == "as_mut" && m.args.is_empty()) => {
                let Expr::MethodCall(m) = &*ix.expr else { unreachable!() };
                let (r, k) = (m.receiver.clone(), ix.index.clone());
                *e = parse_quote!(#r[#k]);
                self.visit_expr_mut(e);
                return;
            }
            // A != &B  ==>  !A.v_eq(&B)
            Expr::Binary(b) if matches!(b.op, BinOp::Ne(_) | BinOp::Eq(_)) && matches!(&*b.right, Expr::Reference(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = if matches!(b.op, BinOp::Ne(_)) { parse_quote!(!#l.v_eq(#r)) } else { parse_quote!(#l.v_eq(#r)) };
                return;
            }
            // a |= B  ==>  a = v_or(a, B)  (flags; other types are refused by the type checker)
            Expr::Binary(b) if self.eager && matches!(b.op, BinOp::BitOrAssign(_)) && matches!(&*b.left, Expr::Path(_)) => {
                let (l, mut r) = (b.left.clone(), (*b.right).clone());
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(#l = v_or(#l, #r));
                return;
            }
            // X[k] = v  ==>  *X.index_mut(k) = v, for a user-defined IndexMut
            Expr::Assign(a) if self.is_mapix(&a.left) => {
                let Expr::Index(ix) = &*a.left else { unreachable!() };
                let (mut x, mut k, mut v) = ((*ix.expr).clone(), (*ix.index).clone(), (*a.right).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut k);
                self.visit_expr_mut(&mut v);
                *e = parse_quote!(*#x.index_mut(#k) = #v);
                return;
            }
            Expr::Reference(r) if self.is_mapix(&r.expr) => {
                let Expr::Index(ix) = &*r.expr else { unreachable!() };
                let (mut x, mut k) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut k);
                *e = if r.mutability.is_some() { parse_quote!(#x.index_mut(#k)) } else { parse_quote!(#x.index(#k)) };
                return;
            }
            Expr::Index(ix) if self.is_mapix(&Expr::Index(ix.clone())) => {
                let (mut x, mut k) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut k);
                *e = parse_quote!((*#x.index(#k)));
                return;
            }
            // X[R].fill(v)  ==>  v_fill_range(&mut X, R, v)
            Expr::MethodCall(m) if m.method == "fill" => {
                if let Expr::Index(ix) = &*m.receiver {
                    let (mut x, mut r, mut v) = ((*ix.expr).clone(), (*ix.index).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!(v_fill_range(&mut #x, #r, #v));
                    return;
                }
            }
            // &X[R] with a range R  ==>  v_slice(&X, R)
            Expr::Reference(r) if self.is_slix(&r.expr) => {
                let Expr::Index(ix) = &*r.expr else { unreachable!() };
                let (mut x, mut k) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut k);
                *e = parse_quote!(v_slice(&#x, #k));
                return;
            }
            // &[]  ==>  v_empty()
            Expr::Reference(r) if matches!(&*r.expr, Expr::Array(a) if a.elems.is_empty()) => {
                *e = parse_quote!(v_empty());
                return;
            }
            // I.find_map(|p| BODY)  ==>  an explicit loop
            Expr::MethodCall(m) if m.method == "find_map" && m.args.len() == 1 => {
                if let Some((mut p, mut b)) = self.closure1(&m.args[0]) {
                    let k = self.loops;
                    self.loops += 1;
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_pat_mut(&mut p);
                    self.visit_expr_mut(&mut b);
                    let inv = self.inv(k, false);
                    let h0 = self.hint(&format!("loop{k}.start"));
                    let h1 = self.hint(&format!("loop{k}.end"));
                    let before = self.hint(&format!("before loop{k}"));
                    let after = self.hint(&format!("after loop{k}"));
                    let o = format_ident!("__found{}", k);
                    let ty = self.found.as_ref().map(|t| {
                        let t: Type = parse_str(t).unwrap();
                        quote!(: Option<#t>)
                    });
                    *e = parse_quote!({
                        let mut #o #ty = None;
                        #before
                        loop {
                            #inv
                            #h0
                            match #r.next() {
                                None => { break; }
                                Some(#p) => {
                                    #o = #b;
                                    if #o.is_some() { break; }
                                }
                            }
                            #h1
                        }
                        #after
                        #o
                    });
                    return;
                }
            }
            // *X.get(k)  ==>  X.sm_getb(k), for a map of bools
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is_bits_get(&u.expr) => {
                let mut x = (*u.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            // E? in a function returning an Option, where a contract needs the early return
            Expr::Try(t) if self.tryopt => {
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                let k = self.tries;
                self.tries += 1;
                let h = self.hint(&format!("try#{k}"));
                *e = parse_quote!(match #x { Some(__q) => __q, None => { #h return None; } });
                return;
            }
            // V.retain(|x| BODY)
            Expr::MethodCall(m) if m.method == "retain" => {
                if let Some(x) = self.retain(&m.clone()) {
                    *e = x;
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Range(r) => {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    *e = parse_quote!(VRange { start: #a, end: #b });
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let l = p.path.segments.last_mut().unwrap();
                    if let Some(n) = self.calls.get(&l.ident.to_string()) {
                        l.ident = format_ident!("{}", n);
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if p.path.segments.len() == 1 && self.recorders.contains(&last) {
                        let f = &c.func;
                        let a = &c.args;
                        *e = parse_quote!(#f.call(#a));
                    } else if last == "take" && (segs.len() == 1 || segs[0] == "mem") {
                        let a = &c.args;
                        *e = parse_quote!(v_take(#a));
                    } else if (last == "max" || last == "min") && (segs.len() == 1 || segs[0] == "cmp") && c.args.len() == 2 {
                        let f = format_ident!("v_{}", last);
                        let a = &c.args;
                        *e = parse_quote!(#f(#a));
                    } else if segs == ["Default", "default"] {
                        *e = parse_quote!(VDefault::vdefault());
                    } else if last == "replace" && segs.len() == 2 && segs[0] == "mem" {
                        let a = &c.args;
                        *e = parse_quote!(v_replace(#a));
                    } else if segs.len() == 1 && self.lifts.contains_key(&last) {
                        let (m, extra) = self.lifts[&last].clone();
                        let m: Expr = parse_str(&m).unwrap();
                        let extra: Vec<Expr> = extra.iter().map(|x| parse_str(x).unwrap()).collect();
                        let a = &c.args;
                        *e = parse_quote!(#m(#(#extra,)* #a));
                    } else if segs.len() == 2 && segs[1] == "from" && segs[0] != "Self" && segs[0] != "VHashMap" && c.args.len() == 1 {
                        // T::from(x)  ==>  VInto::<T>::vinto(x)
                        let t = &p.path.segments[0];
                        let a = &c.args[0];
                        *e = parse_quote!(VInto::<#t>::vinto(#a));
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(n) = self.calls.get(&m.method.to_string()) {
                    m.method = format_ident!("{}", n);
                }
                if self.is_bits(&m.receiver) {
                    let n = match m.method.to_string().as_str() {
                        "get" => Some("sm_getb"),
                        "set" => Some("sm_set"),
                        "swap" => Some("sm_swap"),
                        "take" => Some("sm_take"),
                        "rekey" => Some("sm_rekey"),
                        _ => None,
                    };
                    if let Some(n) = n {
                        m.method = format_ident!("{}", n);
                    }
                }
                let name = m.method.to_string();
                let r = (*m.receiver).clone();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                match (name.as_str(), args.len()) {
                    ("into", 0) => m.method = format_ident!("vinto"),
                    ("unwrap_or_default", 0) => *e = parse_quote!(v_unwrap_or_default(#r)),
                    ("iter", 0) if self.eager && !self.slit => m.method = format_ident!("v_refs"),
                    ("into_iter", 0) if self.eager && !self.slit => *e = parse_quote!(v_iter(#r)),
                    ("iter", 0) if self.slit => m.method = format_ident!("v_sl"),
                    ("into_iter", 0) if self.slit => *e = parse_quote!(v_iter(#r)),
                    ("zip", 1) if self.slit => {
                        let a = &args[0];
                        *e = parse_quote!(v_zip_new(#r, #a));
                    }
                    ("skip", 1) | ("chain", 1) | ("zip", 1) | ("take", 1) => {
                        let f = format_ident!("v_{}", name);
                        let a = &args[0];
                        *e = match a {
                            Expr::Path(_) if name == "zip" && self.eager => parse_quote!(#f(#r, v_iter(#a))),
                            _ => parse_quote!(#f(#r, #a)),
                        };
                    }
                    ("vec_resize", 2) => {
                        let (a, b) = (&args[0], &args[1]);
                        *e = parse_quote!(vec_resize(&mut #r, #a, #b));
                    }
                    ("rev", 0) => *e = parse_quote!(v_rev(#r)),
                    ("min", 1) | ("max", 1) => {
                        let f = format_ident!("v_{}", name);
                        let a = &args[0];
                        *e = parse_quote!(#f(#r, #a));
                    }
                    ("for_each", 1) => {
                        // it.for_each(f)  ==>  for x in it { f(x); }
                        let f = &args[0];
                        let mut x: Expr = parse_quote!(for __x in #r { #f(__x); });
                        // `r` was already rewritten; rewriting is idempotent on it.
                        self.visit_expr_mut(&mut x);
                        *e = x;
                    }
                    ("map", 1) if self.resmap => {
                        let f = &args[0];
                        *e = parse_quote!(match #r { Ok(__v) => Ok(#f(__v)), Err(__e) => Err(__e) });
                    }
                    ("map", 1) if !self.noopt => {
                        if let Some((p, b)) = self.closure1(&args[0]) {
                            *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                        } else if let Expr::Path(f) = &args[0] {
                            *e = parse_quote!(match #r { Some(__x) => Some(#f(__x)), None => None });
                        }
                    }
                    ("and_then", 1) if !self.noopt => {
                        if let Some((p, b)) = self.closure1(&args[0]) {
                            *e = parse_quote!(match #r { Some(#p) => #b, None => None });
                        }
                    }
                    ("then_some", 1) => {
                        let v = &args[0];
                        *e = parse_quote!(if #r { Some(#v) } else { None });
                    }
                    ("is_some_and", 1) if !self.noopt => {
                        if let Some((p, b)) = self.closure1(&args[0]) {
                            *e = parse_quote!(match #r { Some(#p) => #b, None => false });
                        }
                    }
                    ("filter", 1) if !self.noopt => {
                        // `Option::filter`
                        if let Expr::Closure(c) = &args[0] {
                            let (p, b) = (&c.inputs[0], &c.body);
                            let q = match p {
                                Pat::Reference(r) => (*r.pat).clone(),
                                p => p.clone(),
                            };
                            let x: Expr = if matches!(p, Pat::Reference(_)) { parse_quote!(__x) } else { parse_quote!(&__x) };
                            *e = parse_quote!(match #r { Some(__x) => { let #q = #x; if #b { Some(__x) } else { None } } None => None });
                        }
                    }
                    ("map_or", 2) if !self.noopt => {
                        if let Some((p, b)) = self.closure1(&args[1]) {
                            let d = &args[0];
                            *e = parse_quote!(match #r { Some(#p) => #b, None => #d });
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // Lifted closures disappear from the body.
            if let Stmt::Local(l) = &s {
                let name = match &l.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => String::new(),
                };
                if self.lifts.contains_key(&name) {
                    if let Some(i) = &l.init {
                        if let Expr::Closure(c) = &*i.expr {
                            self.lift_bodies.insert(name, c.clone());
                            continue;
                        }
                    }
                }
            }
            // let [a, b] = E  ==>  let (a, b) = (E[0], E[1])
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Slice(p), Some(i)) = (&l.pat, &mut l.init) {
                    let el = array_elems(&i.expr, p.elems.len());
                    let ps = p.elems.clone();
                    *i.expr = parse_quote!((#(#el),*));
                    l.pat = parse_quote!((#ps));
                }
            }
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if !n.starts_with("__vx") {
                    match self.mac_expr(&m.mac) {
                        Some(x) => s = Stmt::Expr(x, m.semi_token),
                        None => self.err(format!("unsupported macro {n}!")),
                    }
                }
            }
            // let &P = E;  ==>  let P = *E;
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Reference(p), Some(i)) = (&l.pat, &mut l.init) {
                    let e = &i.expr;
                    *i.expr = parse_quote!(*#e);
                    l.pat = (*p.pat).clone();
                }
            }
            // let Some(&x) = E ..;  ==>  let Some(x) = E ..; let x = *x;
            let mut derefs = vec![];
            if let Stmt::Local(l) = &mut s {
                RefPats(&mut derefs).visit_pat_mut(&mut l.pat);
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            for x in derefs {
                out.push(parse_quote!(let #x = *#x;));
            }
        }
        b.stmts = out;
    }
}

/// The elements of an array expression of length n.
fn array_elems(e: &Expr, n: usize) -> Vec<Expr> {
    (0..n)
        .map(|k| {
            let k = Literal_usize(k);
            match e {
                // X.map(|p| b)
                Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) => {
                    let Expr::Closure(c) = &m.args[0] else { unreachable!() };
                    let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                    parse_quote!({ let #p = #x[#k]; #b })
                }
                e => parse_quote!(#e[#k]),
            }
        })
        .collect()
}

impl Rw<'_> {
    fn array_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let n = m.arms.iter().find_map(|a| match &a.pat {
            Pat::Slice(s) => Some(s.elems.len()),
            _ => None,
        })?;
        if let Expr::Reference(r) = &*m.expr {
            // match &mut E { [p0, p1] if G => A, _ => B }
            //   ==>  if { let p1 = &E[1]; G } { let p1 = &mut E[1]; A } else { B }
            if r.mutability.is_none() || m.arms.len() != 2 || !matches!(m.arms[1].pat, Pat::Wild(_)) {
                return None;
            }
            let Pat::Slice(s) = &m.arms[0].pat else { return None };
            let (_, g) = m.arms[0].guard.as_ref()?;
            let x = &r.expr;
            let mut a: Vec<Stmt> = vec![];
            let mut b: Vec<Stmt> = vec![];
            for (k, p) in s.elems.iter().enumerate() {
                let k = Literal_usize(k);
                match p {
                    Pat::Wild(_) => {}
                    Pat::Ident(_) => {
                        a.push(parse_quote!(let #p = &#x[#k];));
                        b.push(parse_quote!(let #p = &mut #x[#k];));
                    }
                    _ => return None,
                }
            }
            if b.len() > 1 {
                return None;
            }
            let (t, f) = (&m.arms[0].body, &m.arms[1].body);
            return Some(parse_quote!(if { #(#a)* #g } { #(#b)* #t } else { #f }));
        }
        let el = array_elems(&m.expr, n);
        let mut m2 = m.clone();
        for a in m2.arms.iter_mut() {
            if let Pat::Slice(s) = &a.pat {
                if s.elems.len() != n || s.elems.iter().any(|p| matches!(p, Pat::Rest(_))) {
                    return None;
                }
                let ps = &s.elems;
                a.pat = parse_quote!((#ps));
            }
        }
        m2.expr = parse_quote!((#(#el),*));
        Some(Expr::Match(m2))
    }
    fn is_slix(&self, e: &Expr) -> bool {
        let Expr::Index(ix) = e else { return false };
        matches!(&*ix.expr, Expr::Field(f) if self.slix.contains(&f.member.to_token_stream().to_string()))
    }
    fn is_bits(&self, e: &Expr) -> bool {
        matches!(e, Expr::Field(f) if matches!(&f.member, Member::Named(n) if self.bits.iter().any(|b| n == b)))
    }
    fn is_bits_get(&self, e: &Expr) -> bool {
        matches!(e, Expr::MethodCall(m) if m.method == "get" && self.is_bits(&m.receiver))
    }
    fn is_mapix(&self, e: &Expr) -> bool {
        let Expr::Index(ix) = e else { return false };
        let n = match &*ix.expr {
            Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            Expr::Field(f) => f.member.to_token_stream().to_string(),
            _ => return false,
        };
        self.mapix.contains(&n)
    }
    /// V.retain(|x| BODY) ==> an explicit loop over the old contents that
    /// pushes the kept elements to a new vector.
    fn retain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let (p, body) = self.closure1(&m.args[0])?;
        let Expr::Block(body) = body else { return None };
        let k = self.loops;
        self.loops += 1;
        let mut v = (*m.receiver).clone();
        self.visit_expr_mut(&mut v);
        let mut b = body.block;
        struct Ret(usize);
        impl VisitMut for Ret {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Closure(_) = e {
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Return(r) = e {
                    let x = r.expr.clone();
                    let k = self.0;
                    let i = format_ident!("__i{}", k);
                    let o = format_ident!("__out{}", k);
                    let s = format_ident!("__src{}", k);
                    *e = parse_quote!({ if #x { #o.push(#s[#i]); } #i += 1; continue; });
                }
            }
        }
        Ret(k).visit_block_mut(&mut b);
        self.visit_block_mut(&mut b);
        let Some(Stmt::Expr(tail, None)) = b.stmts.pop() else { return None };
        let i = format_ident!("__i{}", k);
        let o = format_ident!("__out{}", k);
        let s = format_ident!("__src{}", k);
        let h0 = self.hint(&format!("loop{k}.start"));
        let h1 = self.hint(&format!("loop{k}.end"));
        let before = self.hint(&format!("before loop{k}"));
        let after = self.hint(&format!("after loop{k}"));
        let stmts = &b.stmts;
        let mut full: Block = parse_quote!({
            let #p = &#s[#i];
            #h0
            #(#stmts)*
            #h1
            if #tail { #o.push(#s[#i]); }
            #i += 1;
        });
        let inv = self.inv(k, false);
        full.stmts.insert(0, inv);
        Some(parse_quote!({
            let mut #s = v_take_vec(&mut #v);
            let mut #o = Vec::new();
            let mut #i: usize = 0;
            #before
            while #i < #s.len() #full
            #after
            #v = #o;
        }))
    }
}

/// Inserts `before X#n` / `after X#n` hints around the innermost statement
/// containing the n-th call of X (or the n-th assignment to field X, written `=X`).
struct Anchors<'a> {
    hints: &'a BTreeMap<String, String>,
    weave: &'a mut Weave,
    counts: HashMap<String, usize>,
    frames: Vec<Vec<String>>,
}
impl Anchors<'_> {
    fn note(&mut self, name: String) {
        let c = self.counts.entry(name.clone()).or_default();
        let id = format!("{name}#{c}");
        *c += 1;
        if let Some(f) = self.frames.last_mut() {
            f.push(id);
        }
    }
    fn raw(&mut self, key: String) -> Option<Stmt> {
        let t = self.hints.get(&key)?.clone();
        self.weave.used.insert(key);
        let k = self.weave.raw.len();
        self.weave.raw.push(t);
        let l = Literal_usize(k);
        Some(parse_quote!(__vx_raw!(#l);))
    }
}
impl VisitMut for Anchors<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            self.frames.push(vec![]);
            self.visit_stmt_mut(&mut s);
            if let Stmt::Local(l) = &s {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let Pat::Ident(p) = pat {
                    self.note(format!("let:{}", p.ident));
                }
            }
            let f = self.frames.pop().unwrap();
            let mut after = vec![];
            for id in f {
                if let Some(h) = self.raw(format!("hint before {id}")) {
                    out.push(h);
                }
                if let Some(h) = self.raw(format!("hint after {id}")) {
                    after.push(h);
                }
            }
            if !after.is_empty() && i + 1 == n {
                if let Stmt::Expr(e, None) = &s {
                    if ends_in_unit(e) {
                        let Stmt::Expr(_, semi) = &mut s else { unreachable!() };
                        *semi = Some(Default::default());
                        out.push(s);
                        out.extend(after);
                    } else {
                        out.push(parse_quote!(let __t = #e;));
                        out.extend(after);
                        out.push(Stmt::Expr(parse_quote!(__t), None));
                    }
                    continue;
                }
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => self.note(m.method.to_string()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.note(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            Expr::Return(_) => self.note("return".into()),
            Expr::Continue(_) => self.note("continue".into()),
            Expr::Break(_) => self.note("break".into()),
            Expr::ForLoop(f) => {
                if let Pat::Ident(p) = &*f.pat {
                    self.note(format!("for:{}", p.ident));
                }
            }
            Expr::While(_) => self.note("while".into()),
            Expr::If(_) => self.note("if".into()),
            Expr::Match(_) => self.note("match".into()),
            Expr::Assign(a) => {
                let mut l = &*a.left;
                loop {
                    match l {
                        Expr::Index(i) => l = &i.expr,
                        Expr::Field(f) => {
                            let n = f.member.to_token_stream().to_string();
                            self.note(format!("={n}"));
                            break;
                        }
                        Expr::Path(p) => {
                            let n = p.path.segments.last().unwrap().ident.to_string();
                            self.note(format!("={n}"));
                            break;
                        }
                        Expr::Unary(u) => l = &u.expr,
                        _ => break,
                    }
                }
            }
            _ => {}
        }
    }
}

fn base_rw<'a>(sec: &Section, po: &str, parts: &'a BTreeMap<String, String>) -> Rw<'a> {
    let width = sec.opt("U").unwrap_or("u32").to_string();
    let mut subst = HashMap::new();
    subst.insert("U".into(), width.clone());
    subst.insert("N".into(), "u32".to_string());
    subst.insert("P".into(), "u32".to_string());
    subst.insert("PO".into(), po.to_string());
    for a in &sec.args {
        if let Some(s) = a.strip_prefix("subst:") {
            let (k, v) = s.split_once('=').unwrap();
            if v.is_empty() {
                subst.remove(k);
            } else {
                subst.insert(k.into(), v.into());
            }
        }
    }
    Rw {
        subst,
        assoc: HashMap::new(),
        width,
        diverge: sec.flag("panics"),
        loops: 0,
        hints: parts,
        weave: Weave::default(),
        recorders: BTreeSet::new(),
        lifts: HashMap::new(),
        lift_bodies: HashMap::new(),
        noopt: sec.flag("noopt"),
        resmap: sec.flag("resmap"),
        nodebug: sec.flag("nodebug"),
        errors: vec![],
        mapix: sec.opt("mapix").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        phantom: sec.flag("phantom"),
        slit: sec.flag("slit"),
        eager: sec.flag("eager"),
        tryopt: sec.flag("tryopt"),
        tries: 0,
        found: sec.opt("found").map(|s| s.replace('+', " ")),
        slix: sec.opt("slix").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        bits: sec.opt("bits").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        calls: sec.args.iter().filter_map(|a| a.strip_prefix("call:")?.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    }
}

fn generics_out(g: &mut Generics, rw: &mut Rw, sec: &Section) {
    let mono: Vec<String> = rw.subst.keys().cloned().collect();
    let keep: Vec<GenericParam> = g
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !mono.contains(&t.ident.to_string()),
            _ => true,
        })
        .cloned()
        .collect();
    g.params = keep.into_iter().collect();
    if let Some(w) = &mut g.where_clause {
        w.predicates = w
            .predicates
            .iter()
            .filter(|p| {
                let s = p.to_token_stream().to_string();
                !s.contains("FnMut") && !s.contains("Into <")
            })
            .cloned()
            .collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.default = None;
            t.eq_token = None;
            if sec.flag("nobounds") {
                t.bounds.clear();
                t.colon_token = None;
            }
        }
    }
}

pub fn section_id(sec: &Section) -> String {
    let (module, path) = (&sec.args[0], sec.args.get(1).map(|s| s.as_str()).unwrap_or(""));
    let mut id = match sec.kind.as_str() {
        "raw" => format!("lemmas:{module}"),
        "fn" => format!("{module}::{path}"),
        k => format!("{k}:{module}::{path}"),
    };
    for k in ["closure", "as", "of", "U"] {
        if let Some(o) = sec.opt(k) {
            id.push_str(&format!("[{o}]"));
        }
    }
    id
}

pub fn emit(lib: &mut Lib, sec: &Section, po: &str, external: bool) -> Res<String> {
    match sec.kind.as_str() {
        "type" => emit_type(lib, sec, po),
        "const" => emit_const(lib, sec, po),
        "fn" if std::env::var("VX_SMOKE").is_ok() => {
            // Vacuity test: every function must fail an `assert(false)` at its end.
            let mut s = sec.clone();
            s.parts.entry("hint end".into()).or_default().push_str("\nassert(false);");
            emit_fn(lib, &s, po, external)
        }
        "fn" => emit_fn(lib, sec, po, external),
        k => Err(format!("unknown section kind {k}")),
    }
}

fn emit_type(lib: &mut Lib, sec: &Section, po: &str) -> Res<String> {
    let (module, name) = (&sec.args[0], &sec.args[1]);
    let mut it = lib.find_type(module, name)?;
    let mut tn = crate::pre::TypeNames::of(sec);
    match &mut it {
        Item::Struct(s) => tn.rename(&mut s.ident),
        Item::Enum(s) => tn.rename(&mut s.ident),
        _ => {}
    }
    tn.visit_item_mut(&mut it);
    crate::pre::BoxFns::of(sec).visit_item_mut(&mut it);
    if let Item::Struct(s) = &mut it {
        // a lifetime that only bounded boxed closures is gone with them
        let body = s.fields.to_token_stream().to_string();
        s.generics.params = s.generics.params.iter().filter(|p| match p {
            GenericParam::Lifetime(l) => body.contains(&l.lifetime.to_string()),
            _ => true,
        }).cloned().collect();
    }
    let mut rw = base_rw(sec, po, &sec.parts);
    let derive = match sec.opt("derive") {
        Some("none") => String::new(),
        Some(d) => format!("#[derive({})]\n", d.replace(',', ", ")),
        None => "#[verifier::allow(autoderive_clone_without_spec)]\n#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n".into(),
    };
    let ext = sec.body.clone();
    let pub_: Visibility = parse_quote!(pub);
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = pub_.clone();
            generics_out(&mut s.generics, &mut rw, sec);
            for f in s.fields.iter_mut() {
                f.vis = pub_.clone();
                f.attrs.clear();
            }
            // Phantom fields carry no data.
            if let (Fields::Named(n), false) = (&mut s.fields, rw.phantom) {
                n.named = n
                    .named
                    .iter()
                    .filter(|f| !f.ty.to_token_stream().to_string().contains("PhantomData"))
                    .cloned()
                    .collect();
            }
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = pub_;
            generics_out(&mut e.generics, &mut rw, sec);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        _ => unreachable!(),
    }
    rw.visit_item_mut(&mut it);
    let mut ts = it.to_token_stream();
    if name == "BitField" {
        ts = replace_ident(ts, "BitField", &{
            let i = format_ident!("BitField_{}", rw.width);
            quote!(#i)
        });
    }
    Ok(format!("{ext}{derive}{}", crate::print::print(ts, &rw.weave)))
}

fn emit_const(lib: &mut Lib, sec: &Section, po: &str) -> Res<String> {
    let (module, path) = (&sec.args[0], &sec.args[1]);
    let (ty, name) = path.split_once("::").ok_or("const path")?;
    let (_, mut c) = lib.find_const(module, ty, name)?;
    let mut rw = base_rw(sec, po, &sec.parts);
    c.attrs.clear();
    c.vis = parse_quote!(pub);
    rw.visit_impl_item_const_mut(&mut c);
    let ty = format_ident!("{}", ty);
    let s = crate::print::print(c.to_token_stream(), &rw.weave);
    let attr = sec.body.clone();
    Ok(format!("impl {ty} {{\n{attr}{s}\n}}"))
}

fn emit_fn(lib: &mut Lib, sec: &Section, po: &str, external: bool) -> Res<String> {
    let (module, path) = (&sec.args[0], &sec.args[1]);
    let (ty, name) = path.split_once("::").unwrap_or(("", path));
    let (imp, mut f) = lib.find_fn(module, ty, name, sec.opt("of"))?;
    for a in &sec.args {
        // identifiers that contracts cannot use (`old`)
        if let Some((x, y)) = a.strip_prefix("rename:").and_then(|x| x.split_once('=')) {
            let i = format_ident!("{}", y);
            f = parse2(replace_ident(f.to_token_stream(), x, &quote!(#i))).map_err(|e| e.to_string())?;
        }
    }
    let mut tn = crate::pre::TypeNames::of(sec);
    let mut imp = imp;
    if !tn.0.is_empty() {
        tn.visit_impl_item_fn_mut(&mut f);
        if let Some(i) = &mut imp {
            tn.visit_item_impl_mut(i);
        }
    }
    if let Some(m) = sec.opt("defer") {
        let mut d = crate::pre::Defer { method: m.to_string(), done: false, err: None };
        d.visit_block_mut(&mut f.block);
        if let Some(e) = d.err {
            return Err(e);
        }
        if !d.done {
            return Err(format!("no deferred call of {m} found"));
        }
    }
    crate::pre::BoxFns::of(sec).visit_impl_item_fn_mut(&mut f);
    crate::pre::Sorts.visit_block_mut(&mut f.block);
    if sec.flag("eager") {
        let mut e = crate::pre::Eager::default();
        if f.sig.output.to_token_stream().to_string().contains("impl Iterator") {
            e.tail(&mut f.block);
        } else {
            e.visit_block_mut(&mut f.block);
        }
    }
    crate::pre::Collect { elem: sec.opt("elem").and_then(|e| parse_str(e).ok()) }.visit_block_mut(&mut f.block);
    for g in sec.args.iter().filter_map(|a| a.strip_prefix("garg:")?.split_once('=')) {
        let mut g = crate::pre::GhostArg { path: g.0.to_string(), arg: parse_str(g.1).map_err(|e| e.to_string())? };
        g.visit_block_mut(&mut f.block);
    }
    crate::pre::RefPats.visit_block_mut(&mut f.block);
    crate::pre::Guards.visit_block_mut(&mut f.block);
    let mut rw = base_rw(sec, po, &sec.parts);
    if let Some(i) = &imp {
        for x in &i.items {
            if let ImplItem::Type(t) = x {
                let mut tt = t.ty.clone();
                rw.visit_type_mut(&mut tt);
                rw.assoc.insert(t.ident.to_string(), tt);
            }
        }
        let _ = has_attr_cfg(&i.attrs);
    }
    if let Some(a) = sec.opt("assoc") {
        let (k, v) = a.split_once(':').unwrap();
        rw.assoc.insert(k.into(), parse_str(v).map_err(|e| e.to_string())?);
    }
    // closures to lift: lift=name:method:extra1;extra2
    for a in &sec.args {
        if let Some(s) = a.strip_prefix("lift=") {
            let mut it = s.split(':');
            let n = it.next().unwrap().to_string();
            let m = it.next().unwrap().replace('/', "::");
            let extra = it
                .next()
                .map(|x| x.split(';').filter(|s| !s.is_empty()).map(|s| s.replace('+', " ")).collect())
                .unwrap_or_default();
            rw.lifts.insert(n, (m, extra));
        }
    }
    // callbacks become recorders
    for p in f.sig.generics.type_params() {
        let name = p.ident.to_string();
        let mut b = p.bounds.to_token_stream().to_string();
        if let Some(w) = &f.sig.generics.where_clause {
            for pr in &w.predicates {
                if let WherePredicate::Type(t) = pr {
                    if t.bounded_ty.to_token_stream().to_string() == name {
                        b.push_str(&t.bounds.to_token_stream().to_string());
                    }
                }
            }
        }
        if b.contains("FnMut") {
            for i in f.sig.inputs.iter() {
                if let FnArg::Typed(t) = i {
                    if t.ty.to_token_stream().to_string() == name {
                        if let Pat::Ident(p) = &*t.pat {
                            rw.recorders.insert(p.ident.to_string());
                        }
                    }
                }
            }
        }
    }
    let closure = sec.opt("closure").map(|s| s.to_string());
    let pre = &sec.parts;
    // anchors first, on the original statements
    {
        let mut weave = std::mem::take(&mut rw.weave);
        let mut a = Anchors { hints: pre, weave: &mut weave, counts: HashMap::new(), frames: vec![] };
        a.visit_block_mut(&mut f.block);
        rw.weave = weave;
    }
    let fname = sec.opt("as").unwrap_or(name).to_string();
    let mut header = String::new();
    if external {
        header.push_str("#[verifier::external_body]\n");
    } else if !sec.flag("isolate") {
        header.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    if let (Some(a), false) = (sec.parts.get("attr"), external) {
        header.push_str(a);
    }
    let ret = sec.opt("ret").unwrap_or("r").to_string();
    let spec = sec.parts.get("spec").cloned().unwrap_or_default();

    let (sig_text, mut block) = if let Some(c) = &closure {
        // A closure lifted to a method: find it, take its body; the signature
        // comes from the contract file.
        struct Find(String, Option<ExprClosure>);
        impl VisitMut for Find {
            fn visit_local_mut(&mut self, l: &mut Local) {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if i.ident == self.0 {
                        if let Expr::Closure(c) = &*init.expr {
                            self.1 = Some(c.clone());
                        }
                    }
                }
                visit_mut::visit_local_mut(self, l);
            }
        }
        let mut fd = Find(c.clone(), None);
        fd.visit_block_mut(&mut f.block);
        let c = fd.1.ok_or_else(|| format!("closure {c} not found"))?;
        let block: Block = match &*c.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        let mut block = block;
        // parameters: bind the closure's patterns to the signature's a0, a1, ...
        for (i, p) in c.inputs.iter().enumerate().rev() {
            let a = format_ident!("a{}", i);
            let mut p = p.clone();
            rw.visit_pat_mut(&mut p);
            block.stmts.insert(0, parse_quote!(let #p = #a;));
        }
        rw.visit_block_mut(&mut block);
        (sec.parts.get("sig").cloned().ok_or("closure needs a sig part")?, block)
    } else {
        let mut sig = f.sig.clone();
        let recs = rw.recorders.clone();
        // bounds of recorder generics
        for p in sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                let args = f.sig.generics.where_clause.iter().flat_map(|w| w.predicates.iter()).find_map(|pr| match pr {
                    WherePredicate::Type(pt) if pt.bounded_ty.to_token_stream().to_string() == n => fnmut_args(&pt.bounds),
                    _ => None,
                });
                let args = args.or_else(|| fnmut_args(&t.bounds));
                if let Some(args) = args {
                    let mut args = args;
                    for a in args.iter_mut() {
                        rw.visit_type_mut(a);
                    }
                    t.bounds = parse_quote!(VCall<#(#args),*>);
                    t.colon_token = Some(Default::default());
                }
            }
        }
        generics_out(&mut sig.generics, &mut rw, sec);
        sig.generics.where_clause = None;
        if let Some(g) = sec.opt("gen") {
            for x in g.split(';') {
                let x: GenericParam = parse_str(&x.replace('+', " ")).map_err(|e| e.to_string())?;
                // A parameter of the same name gets the bounds given here.
                let name = |g: &GenericParam| match g { GenericParam::Type(t) => t.ident.to_string(), GenericParam::Lifetime(l) => l.lifetime.to_string(), GenericParam::Const(c) => c.ident.to_string() };
                match sig.generics.params.iter_mut().find(|g| name(g) == name(&x)) {
                    Some(g) => *g = x,
                    None => sig.generics.params.push(x),
                }
            }
            sig.generics.lt_token = Some(Default::default());
            sig.generics.gt_token = Some(Default::default());
        }
        let mut prologue: Vec<Stmt> = vec![];
        for (n, i) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = i {
                // `PAT: T` parameters become `__pN: T` plus `let PAT = __pN;`
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let v = format_ident!("__p{}", n);
                    prologue.push(match &*t.pat {
                        Pat::Reference(r) => {
                            let q = &r.pat;
                            parse_quote!(let #q = *#v;)
                        }
                        q => parse_quote!(let #q = #v;),
                    });
                    *t.pat = parse_quote!(#v);
                }
                if let Pat::Ident(p) = &mut *t.pat {
                    if let Some(ty) = sec.args.iter().find_map(|a| a.strip_prefix(&format!("ptype:{}=", p.ident))) {
                        // the type at which a generic parameter is checked
                        *t.ty = parse_str(&ty.replace('+', " ")).map_err(|e| e.to_string())?;
                    }
                    if recs.contains(&p.ident.to_string()) {
                        p.mutability = None;
                        let ty = &t.ty;
                        t.ty = parse_quote!(&mut #ty);
                    } else if p.mutability.is_some() && !matches!(&*t.ty, Type::Reference(_)) {
                        // `mut x: T` parameters become `x: T` plus `let mut x = x;`
                        p.mutability = None;
                        let n = &p.ident;
                        prologue.push(parse_quote!(let mut #n = #n;));
                    }
                }
            }
        }
        rw.visit_signature_mut(&mut sig);
        let mut out = std::mem::replace(&mut sig.output, ReturnType::Default);
        if let Some(t) = sec.opt("rettype") {
            // `impl Iterator` results are given their concrete type
            out = ReturnType::Type(Default::default(), Box::new(parse_str(&t.replace('+', " ")).map_err(|e| e.to_string())?));
        }
        sig.ident = format_ident!("{}", fname);
        let mut s = crate::print::print(sig.to_token_stream(), &rw.weave);
        if let ReturnType::Type(_, t) = out {
            s.push_str(&format!(" -> ({ret}: {})", crate::print::print(t.to_token_stream(), &rw.weave)));
        }
        let mut block = f.block.clone();
        rw.visit_block_mut(&mut block);
        for p in prologue.into_iter().rev() {
            block.stmts.insert(0, p);
        }
        (s, block)
    };
    if external {
        // The contract is kept, the body is not checked.
        rw.errors.clear();
        block = parse_quote!({ unimplemented!() });
    }
    if let (false, Some(h)) = (external, rw.hint("start")) {
        // after prologue statements
        block.stmts.insert(0, h);
    }
    if let (false, Some(h)) = (external, rw.hint("end")) {
        let unit = !sig_text.contains("->");
        if unit {
            if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            block.stmts.push(h);
        } else {
            push_end_value(&mut block, h);
        }
    }
    if !rw.errors.is_empty() {
        return Err(rw.errors.join("; "));
    }
    for k in pre.keys() {
        if external {
            break;
        }
        if k.starts_with("hint ") && !rw.weave.used.contains(k) {
            return Err(format!("anchor lost: {k}"));
        }
        if let Some(n) = k.strip_prefix("loop ") {
            let n: usize = n.trim().parse().map_err(|_| format!("bad part {k}"))?;
            if n >= rw.loops {
                return Err(format!("anchor lost: {k}"));
            }
        }
    }
    if !external && sec.opt("loops").map(|n| n.parse::<usize>().unwrap()) .is_some_and(|n| n != rw.loops) {
        return Err(format!("the number of loops changed to {}", rw.loops));
    }
    let body = crate::print::print(block.to_token_stream(), &rw.weave);
    let on = sec.opt("on").map(|s| s.to_string()).unwrap_or_else(|| ty.to_string());
    let self_ty = if on == "BitField" { format!("BitField_{}", rw.width) } else { on };
    let gen = sec.opt("impl").unwrap_or("").replace('+', " ");
    let vis = if sec.flag("trait") { "" } else { "pub " };
    if sec.flag("vinto") {
        // impl From<A> for B { fn from(x: A) -> B }  ==>  impl VInto<B> for A
        let FnArg::Typed(t) = &f.sig.inputs[0] else { return Err("vinto".into()) };
        let mut ty = (*t.ty).clone();
        rw.visit_type_mut(&mut ty);
        let p = &t.pat;
        let mut b = block.clone();
        // `Self` means B
        let b2: TokenStream = replace_ident(b.to_token_stream(), "Self", &{
            let i = format_ident!("{}", self_ty);
            quote!(#i)
        });
        b = parse2(b2).map_err(|e| e.to_string())?;
        b.stmts.insert(0, parse_quote!(let #p = __me;));
        let body = crate::print::print(b.to_token_stream(), &rw.weave).replace("__me", "self");
        let a = ty.to_token_stream().to_string();
        let into = sec.parts.get("into").cloned().ok_or("vinto needs an into part")?;
        let header = if external { "#[verifier::external_body]\n" } else { "" };
        return Ok(format!(
            "impl VInto<{self_ty}> for {a} {{\n    open spec fn into_spec(self) -> {self_ty} {{ {into} }}\n    {header}fn vinto(self) -> (r: {self_ty}) {body}\n}}"
        ));
    }
    let open = if self_ty.is_empty() || sec.flag("bare") {
        String::new()
    } else if let Some(t) = sec.opt("trait_of") {
        format!("impl{gen} {t} for {self_ty} {{\n")
    } else {
        format!("impl{gen} {self_ty} {{\n")
    };
    let vis = if sec.opt("trait_of").is_some() { "" } else { vis };
    let close = if open.is_empty() { "" } else { "\n}" };
    let extra = sec.parts.get("extra").cloned().unwrap_or_default();
    let sig_text = match sec.opt("gparam") {
        // ghost parameters only the proof uses
        Some(g) => {
            let g = g.split(';').map(|x| x.split_once(':').map(|(n, t)| format!(", Ghost({n}): Ghost<{t}>")).unwrap_or_default()).collect::<String>();
            let at = sig_text.rfind("->").and_then(|e| sig_text[..e].rfind(')')).or_else(|| sig_text.rfind(')')).ok_or("gparam")?;
            format!("{}{}{}", &sig_text[..at], g, &sig_text[at..])
        }
        None => sig_text,
    };
    Ok(format!("{open}{extra}{header}{vis}{sig_text}\n{spec}{body}{close}"))
}

fn push_end_value(b: &mut Block, h: Stmt) {
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => {
            let e = e.clone();
            b.stmts.pop();
            b.stmts.push(parse_quote!(let __ret = #e;));
            b.stmts.push(h);
            b.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
        }
        _ => b.stmts.push(h),
    }
}

fn fnmut_args(b: &Punctuated<TypeParamBound, Token![+]>) -> Option<Vec<Type>> {
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            let s = t.path.segments.last()?;
            if s.ident == "FnMut" {
                if let PathArguments::Parenthesized(p) = &s.arguments {
                    return Some(p.inputs.iter().cloned().collect());
                }
            }
        }
    }
    None
}
