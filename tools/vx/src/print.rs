use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

pub fn flat(t: TokenStream) -> String {
    pretty(t, &BTreeMap::new()).replace('\n', " ")
}

pub fn pretty(t: TokenStream, loops: &BTreeMap<usize, String>) -> String {
    let mut s = String::new();
    go(t, loops, &mut s, false);
    s
}

pub fn pretty_block(b: &syn::Block, loops: &BTreeMap<usize, String>) -> String {
    let mut s = String::new();
    for st in &b.stmts {
        go(st.to_token_stream(), loops, &mut s, true);
        s.push('\n');
    }
    s
}

/// `__vx_loop ! ( n ) ;` at the start of a block
fn marker(t: &TokenStream) -> Option<(usize, TokenStream)> {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    if v.len() < 4 {
        return None;
    }
    let TokenTree::Ident(i) = &v[0] else { return None };
    if i != "__vx_loop" {
        return None;
    }
    let TokenTree::Group(g) = &v[2] else { return None };
    let n: usize = g.stream().to_string().trim().parse().ok()?;
    Some((n, v[4..].iter().cloned().collect()))
}

fn go(t: TokenStream, loops: &BTreeMap<usize, String>, s: &mut String, in_brace: bool) {
    let mut glue = true;
    // `for pat in expr` gets a ghost name for its iterator: `for pat in vx_it: expr`
    let mut in_for = false;
    for tt in t {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    in_for = false;
                    let mut inner = g.stream();
                    if let Some((n, rest)) = marker(&inner) {
                        s.push('\n');
                        if let Some(l) = loops.get(&n) {
                            s.push_str(l);
                        }
                        inner = rest;
                    }
                    s.push_str(" {\n");
                    go(inner, loops, s, true);
                    s.push_str("\n}");
                    if in_brace {
                        s.push('\n');
                    }
                } else {
                    s.push_str(o);
                    go(g.stream(), loops, s, false);
                    s.push_str(c);
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                if !glue && p.as_char() != ';' && p.as_char() != ',' && p.as_char() != '.' && p.as_char() != '?' {
                    s.push(' ');
                }
                s.push(p.as_char());
                glue = p.spacing() == Spacing::Joint || p.as_char() == '.' || p.as_char() == '&' || p.as_char() == '\'' ;
                if in_brace && (p.as_char() == ';' || p.as_char() == ',') {
                    s.push('\n');
                }
            }
            TokenTree::Ident(i) => {
                if !glue {
                    s.push(' ');
                }
                s.push_str(&i.to_string());
                glue = false;
                if i == "for" {
                    in_for = true;
                } else if i == "in" && in_for {
                    s.push_str(" vx_it:");
                    in_for = false;
                }
            }
            TokenTree::Literal(l) => {
                if !glue {
                    s.push(' ');
                }
                s.push_str(&l.to_string());
                glue = false;
            }
        }
    }
}
