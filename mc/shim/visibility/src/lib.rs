//! `#[visibility::make(pub)]`: replaces the item's visibility.
use proc_macro::*;
#[proc_macro_attribute]
pub fn make(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = item.into_iter().peekable();
    // leading attributes
    while let Some(TokenTree::Punct(p)) = it.peek() {
        if p.as_char() != '#' { break }
        out.extend([it.next().unwrap()]);
        out.extend([it.next().unwrap()]);
    }
    // existing visibility
    if let Some(TokenTree::Ident(i)) = it.peek() {
        if i.to_string() == "pub" {
            it.next();
            if let Some(TokenTree::Group(g)) = it.peek() { if g.delimiter() == Delimiter::Parenthesis { it.next(); } }
        }
    }
    out.extend(attr);
    out.extend(it);
    out
}
