//! `format!` expanded into plain pushes, without the run-time formatting machinery.
use proc_macro::TokenStream;
use quote::quote;
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::{Expr, Ident, LitStr, Token};

struct Args {
    fmt: LitStr,
    pos: Vec<Expr>,
    named: Vec<(Ident, Expr)>,
}
impl Parse for Args {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let fmt: LitStr = i.parse()?;
        let mut pos = vec![];
        let mut named = vec![];
        while !i.is_empty() {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                let n: Ident = i.parse()?;
                i.parse::<Token![=]>()?;
                named.push((n, i.parse()?));
            } else {
                pos.push(i.parse()?);
            }
        }
        Ok(Args { fmt, pos, named })
    }
}

enum Piece {
    Lit(String),
    Arg(String, String),
}
fn pieces(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if c.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                while j < c.len() && c[j] != '}' {
                    j += 1;
                }
                if j == c.len() {
                    return None;
                }
                let body: String = c[i + 1..j].iter().collect();
                let (name, spec) = match body.find(':') {
                    Some(k) => (body[..k].trim().to_string(), body[k + 1..].trim().to_string()),
                    None => (body.trim().to_string(), String::new()),
                };
                if spec.contains('$') || spec.contains(".*") {
                    return None;
                }
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                out.push(Piece::Arg(name, spec));
                i = j + 1;
            }
            '}' => return None,
            x => {
                lit.push(x);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}

#[proc_macro]
pub fn vformat(input: TokenStream) -> TokenStream {
    let raw: proc_macro2::TokenStream = input.clone().into();
    let fallback = quote!(::vfmt::real_format!(#raw));
    let a = match syn::parse::<Args>(input) {
        Ok(a) => a,
        Err(_) => return fallback.into(),
    };
    let ps = match pieces(&a.fmt.value()) {
        Some(p) => p,
        None => return fallback.into(),
    };
    let mut next = 0;
    let mut body = vec![];
    for p in ps {
        match p {
            Piece::Lit(l) => body.push(quote!(__s.push_str(#l);)),
            Piece::Arg(name, spec) => {
                let e: proc_macro2::TokenStream = if name.is_empty() {
                    let k = next;
                    next += 1;
                    match a.pos.get(k) {
                        Some(e) => quote!(#e),
                        None => match a.named.get(k - a.pos.len()) {
                            Some((_, e)) => quote!(#e),
                            None => return fallback.into(),
                        },
                    }
                } else if let Ok(k) = name.parse::<usize>() {
                    match a.pos.get(k) {
                        Some(e) => quote!(#e),
                        None => return fallback.into(),
                    }
                } else if let Some((_, e)) = a.named.iter().find(|(n, _)| n == &name) {
                    quote!(#e)
                } else {
                    let id = Ident::new(&name, a.fmt.span());
                    quote!(#id)
                };
                let stmt = match spec.as_str() {
                    "" => quote!((&&&&::vfmt::W(&(#e))).vpush(&mut __s);),
                    "x" => quote!((&&::vfmt::W(&(#e))).vhex(&mut __s, 0, false);),
                    "02x" => quote!((&&::vfmt::W(&(#e))).vhex(&mut __s, 2, false);),
                    "X" => quote!((&&::vfmt::W(&(#e))).vhex(&mut __s, 0, true);),
                    "02X" => quote!((&&::vfmt::W(&(#e))).vhex(&mut __s, 2, true);),
                    _ => {
                        let f = format!("{{:{}}}", spec);
                        quote!(::vfmt::push_fmt(&mut __s, ::core::format_args!(#f, #e));)
                    }
                };
                body.push(stmt);
            }
        }
    }
    quote!({
        #[allow(unused_imports)]
        use ::vfmt::{VPushChar as _, VPushDisplay as _, VPushInt as _, VPushStr as _, VHexInt as _, VHexDisplay as _};
        let mut __s = ::vfmt::String::with_capacity(64);
        #(#body)*
        __s
    })
    .into()
}

#[allow(dead_code)]
type Unused = Punctuated<Expr, Token![,]>;
