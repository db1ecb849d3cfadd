//! Stand-in for `async-recursion` (not available offline): boxes the body of an async fn.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

/// borrow lifetimes made explicit: `&self` / `&mut W` -> `&'ar ...`
fn relife(ts: TokenStream) -> String {
    let mut o = String::new();
    for t in ts {
        match t {
            TokenTree::Punct(p) if p.as_char() == '&' => o.push_str(" &'ar "),
            TokenTree::Punct(p) => { o.push(p.as_char()); if p.spacing() == proc_macro::Spacing::Alone { o.push(' ') } }
            TokenTree::Group(g) => o.push_str(&g.to_string()),
            t => { o.push_str(&t.to_string()); o.push(' ') }
        }
    }
    o
}

#[proc_macro_attribute]
pub fn async_recursion(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    // pub async fn NAME < GENERICS > ( ARGS ) -> RET { BODY }
    let i_fn = toks.iter().position(|t| t.to_string() == "fn").unwrap();
    let name = toks[i_fn + 1].to_string();
    let i_args = toks.iter().position(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)).unwrap();
    let generics: TokenStream = toks[i_fn + 3..i_args - 1].iter().cloned().collect();
    let gname = toks[i_fn + 3].to_string();
    let args = match &toks[i_args] { TokenTree::Group(g) => relife(g.stream()), _ => unreachable!() };
    let ret: TokenStream = toks[i_args + 3..toks.len() - 1].iter().cloned().collect();
    let body = toks.last().unwrap().to_string();
    let sl = if args.contains("self") { "" } else { "" };
    format!(
        "pub fn {name}<'ar, {generics}>({args}) -> ::std::pin::Pin<Box<dyn ::std::future::Future<Output = {ret}> + Send + 'ar>> where {gname}: 'ar {sl} {{ Box::pin(async move {body}) }}"
    ).parse().unwrap()
}
