//! `#[derive(TreeHash)]` for containers and transparent enums.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

#[proc_macro_derive(TreeHash, attributes(tree_hash))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = parse_macro_input!(input as DeriveInput);
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let body = match &i.data {
        Data::Struct(s) => {
            let mut roots = Vec::new();
            for (n, f) in s.fields.iter().enumerate() {
                let skip = f.attrs.iter().any(|a| {
                    let mut s = false;
                    if a.path().is_ident("tree_hash") {
                        let _ = a.parse_nested_meta(|m| {
                            s |= m.path.is_ident("skip_hashing");
                            Ok(())
                        });
                    }
                    s
                });
                if skip {
                    continue;
                }
                let member = match &f.ident {
                    Some(x) => quote!(#x),
                    None => {
                        let k = syn::Index::from(n);
                        quote!(#k)
                    }
                };
                roots.push(quote!(::tree_hash::TreeHash::tree_hash_root(&self.#member).0));
            }
            quote!(::tree_hash::merkle_root(&[#(#roots),*]))
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let v = &v.ident;
                quote!(#name::#v(x) => ::tree_hash::TreeHash::tree_hash_root(x),)
            });
            quote!(match self { #(#arms)* })
        }
        Data::Union(_) => panic!("no unions"),
    };
    quote! {
        impl #ig ::tree_hash::TreeHash for #name #tg #wc {
            fn tree_hash_root(&self) -> ::tree_hash::Hash256 { #body }
        }
    }
    .into()
}
