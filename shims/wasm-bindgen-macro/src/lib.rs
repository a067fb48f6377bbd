//! Stand-in for wasm-bindgen's attribute: the item is compiled as plain Rust, nested
//! `#[wasm_bindgen(..)]` attributes are removed.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(tt) = it.next() {
        match tt {
            TokenTree::Punct(ref p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if g.delimiter() == Delimiter::Bracket {
                        let s = g.stream().to_string();
                        let s = s.trim_start();
                        if s.starts_with("wasm_bindgen") || s.starts_with("wasm_bindgen ::") {
                            it.next();
                            continue;
                        }
                    }
                }
                out.push(tt);
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
