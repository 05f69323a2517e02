//! Prints token streams one statement per line.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Contract text to weave into the printed tokens.
#[derive(Default)]
pub struct Weave {
    /// `__vx_raw!(k);` statements
    pub raw: Vec<String>,
    /// `__vx_inv!(k);` at the start of a loop body: printed before the brace
    pub inv: Vec<String>,
    pub used: std::collections::BTreeSet<String>,
}

pub fn print(ts: TokenStream, w: &Weave) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0, w);
    s
}

/// Recognises `NAME ! ( k ) ;` at the start of `ts`.
fn marker(ts: &[TokenTree], name: &str) -> Option<usize> {
    match ts {
        [TokenTree::Ident(i), TokenTree::Punct(b), TokenTree::Group(g), ..] if i == name && b.as_char() == '!' => {
            g.stream().to_string().trim().parse().ok()
        }
        _ => None,
    }
}

fn nl(s: &mut String, ind: usize) {
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}

fn go(ts: TokenStream, s: &mut String, ind: usize, w: &Weave) {
    let mut joint = false;
    let all: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < all.len() {
        if let Some(k) = marker(&all[i..], "__vx_raw") {
            nl(s, 0);
            s.push_str(&w.raw[k]);
            nl(s, ind);
            i += 3;
            if matches!(all.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                i += 1;
            }
            continue;
        }
        let t = all[i].clone();
        i += 1;
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let brace = g.delimiter() == Delimiter::Brace;
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut body = g.stream();
                if let (true, Some(k)) = (brace, marker(&inner, "__vx_inv")) {
                    nl(s, 0);
                    s.push_str(&w.inv[k]);
                    nl(s, ind);
                    body = inner[4..].iter().cloned().collect();
                }
                if brace && !s.ends_with([' ', '\n', '(', '[']) {
                    s.push(' ');
                }
                s.push_str(o);
                if brace {
                    nl(s, ind + 1);
                }
                go(body, s, if brace { ind + 1 } else { ind }, w);
                if brace {
                    nl(s, ind);
                }
                s.push_str(c);
                if brace {
                    nl(s, ind);
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !joint && !s.ends_with([' ', '\n', '(', '[', '!', '&', '\'']) && !matches!(c, ';' | ',' | '.' | '?') {
                    s.push(' ');
                }
                s.push(c);
                joint = p.spacing() == Spacing::Joint;
                if c == ';' {
                    nl(s, ind);
                }
            }
            TokenTree::Ident(i) => {
                if !s.ends_with([' ', '\n', '(', '[', '&', '\'', '!', '.']) {
                    s.push(' ');
                }
                s.push_str(&i.to_string());
                joint = false;
            }
            TokenTree::Literal(l) => {
                if !s.ends_with([' ', '\n', '(', '[']) {
                    s.push(' ');
                }
                s.push_str(&l.to_string());
                joint = false;
            }
        }
    }
}
