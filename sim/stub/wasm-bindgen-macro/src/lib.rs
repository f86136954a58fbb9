//! Stand-in for `#[wasm_bindgen]`: exports stay plain Rust functions, imported functions report that they were called.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn is_ours(g: &Group) -> bool {
    g.delimiter() == Delimiter::Bracket && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen")
}

/// removes nested #[wasm_bindgen(..)] helper attributes
fn strip(s: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = s.into_iter().peekable();
    while let Some(t) = it.next() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == '#' => match it.peek() {
                Some(TokenTree::Group(g)) if is_ours(g) => {
                    it.next();
                }
                _ => out.push(t),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            _ => out.push(t),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"));
    if let Some(i) = at {
        let j = match toks.get(i + 1) {
            Some(TokenTree::Literal(_)) => i + 2,
            _ => i + 1,
        };
        if let Some(TokenTree::Group(g)) = toks.get(j) {
            if g.delimiter() == Delimiter::Brace {
                return imports(strip(g.stream()));
            }
        }
    }
    strip(item)
}

fn imports(s: TokenStream) -> TokenStream {
    let mut out = String::new();
    let mut cur: Vec<TokenTree> = vec![];
    for t in s {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ';' => {
                let text = cur.drain(..).collect::<TokenStream>();
                let toks: Vec<TokenTree> = text.clone().into_iter().collect();
                let f = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "fn"));
                if let Some(f) = f {
                    let name = toks[f + 1].to_string();
                    let returns = toks.windows(2).any(|w| matches!((&w[0], &w[1]), (TokenTree::Punct(a), TokenTree::Punct(b)) if a.as_char() == '-' && b.as_char() == '>'));
                    let body = if returns { format!("panic!(\"imported function {name} is not simulated\")") } else { format!("::wasm_bindgen::imported({name:?})") };
                    out += &format!("#[allow(unused, dead_code)] {text} {{ {body} }}\n");
                }
            }
            _ => cur.push(t),
        }
    }
    out.parse().unwrap()
}
