//! Attributes of pyo3: they make what python sees callable from the harness and leave the code as it is.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

const HELPERS: [&str; 12] = ["new", "staticmethod", "classmethod", "getter", "setter", "deleter", "classattr", "pyo3", "args", "pyfn", "text_signature", "init"];

/// the attribute's name if `t` is the bracket group of one
fn attr(t: &TokenTree) -> Option<String> {
    match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => match g.stream().into_iter().next() {
            Some(TokenTree::Ident(i)) => Some(i.to_string()),
            _ => None,
        },
        _ => None,
    }
}
fn is(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn word(t: &TokenTree, s: &str) -> bool { matches!(t, TokenTree::Ident(i) if i.to_string() == s) }

/// without pyo3's helper attributes; `open`: every function is public
fn clean(s: TokenStream, open: bool) -> TokenStream {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    let mut public = false;
    while i < v.len() {
        if is(&v[i], '#') && i + 1 < v.len() {
            if let Some(n) = attr(&v[i + 1]) {
                if !HELPERS.contains(&n.as_str()) {
                    out.push(v[i].clone());
                    out.push(v[i + 1].clone());
                }
                i += 2;
                continue;
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            if g.delimiter() == Delimiter::None {
                let mut n = Group::new(Delimiter::None, clean(g.stream(), open));
                n.set_span(g.span());
                out.push(n.into());
                i += 1;
                continue;
            }
            if g.delimiter() == Delimiter::Brace {
                public = false;
            }
        }
        if word(&v[i], "pub") {
            public = true;
        }
        if word(&v[i], "fn") && open && !public {
            out.push(Ident::new("pub", Span::call_site()).into());
        }
        if is(&v[i], ';') {
            public = false;
        }
        out.push(v[i].clone());
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyclass(_: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let mut name = None;
    for i in 0..v.len() {
        if word(&v[i], "struct") || word(&v[i], "enum") {
            name = match &v[i + 1] {
                TokenTree::Group(g) => g.stream().into_iter().next(),
                t => Some(t.clone()),
            };
            break;
        }
    }
    let name = name.expect("a name").to_string();
    let mut out: TokenStream = v.into_iter().map(|t| match &t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
            let mut n = Group::new(Delimiter::Brace, clean(g.stream(), false));
            n.set_span(g.span());
            n.into()
        }
        _ => t,
    }).collect();
    let i: TokenStream = format!("impl ::pyo3::PyClass for {} {{}}", name).parse().unwrap();
    out.extend(i);
    out
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    item.into_iter().map(|t| match &t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
            let mut n = Group::new(Delimiter::Brace, clean(g.stream(), true));
            n.set_span(g.span());
            n.into()
        }
        _ => t,
    }).collect()
}

/// functions registered inside the module become functions beside it
#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut beside: Vec<TokenTree> = vec![];
    let mut out: Vec<TokenTree> = vec![];
    for t in item {
        match &t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut keep: Vec<TokenTree> = vec![];
                let mut i = 0;
                while i < v.len() {
                    if is(&v[i], '#') && i + 1 < v.len() && attr(&v[i + 1]).as_deref() == Some("pyfn") {
                        let start = i;
                        while !matches!(&v[i], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                            i += 1;
                        }
                        i += 1;
                        beside.extend(clean(v[start..i].iter().cloned().collect(), true));
                    } else {
                        keep.push(v[i].clone());
                        i += 1;
                    }
                }
                out.push(Group::new(Delimiter::Brace, keep.into_iter().collect()).into());
            }
            _ => out.push(t),
        }
    }
    out.extend(beside);
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream { clean(item, true) }
