//! `#[derive(Encode, Decode)]` with the container, transparent, union and tag rules of
//! `ethereum_ssz_derive`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DataEnum, DeriveInput, Fields, LitStr};

#[derive(Default)]
struct Opts {
    struct_behaviour: Option<String>,
    enum_behaviour: Option<String>,
    with: Option<syn::Path>,
    skip_ser: bool,
    skip_de: bool,
}
fn opts(attrs: &[syn::Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("ssz")) {
        a.parse_nested_meta(|m| {
            let name = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            match name.as_str() {
                "struct_behaviour" => o.struct_behaviour = Some(m.value()?.parse::<LitStr>()?.value()),
                "enum_behaviour" => o.enum_behaviour = Some(m.value()?.parse::<LitStr>()?.value()),
                "with" => o.with = Some(m.value()?.parse::<LitStr>()?.parse()?),
                "skip_serializing" => o.skip_ser = true,
                "skip_deserializing" => o.skip_de = true,
                other => panic!("unknown ssz attribute {other}"),
            }
            Ok(())
        })
        .expect("ssz attribute");
    }
    o
}
struct F {
    member: T2,
    ty: syn::Type,
    o: Opts,
}
fn fields(f: &Fields) -> Vec<F> {
    f.iter()
        .enumerate()
        .map(|(i, f)| F {
            member: match &f.ident {
                Some(n) => quote!(#n),
                None => {
                    let i = syn::Index::from(i);
                    quote!(#i)
                }
            },
            ty: f.ty.clone(),
            o: opts(&f.attrs),
        })
        .collect()
}
fn enc(f: &F) -> (T2, T2, T2, T2) {
    let (m, t) = (&f.member, &f.ty);
    match &f.o.with {
        Some(p) => (
            quote!(#p::encode::is_ssz_fixed_len()),
            quote!(#p::encode::ssz_fixed_len()),
            quote!(#p::encode::ssz_bytes_len(&self.#m)),
            quote!(__e.append_parameterized(#p::encode::is_ssz_fixed_len(), |__b| #p::encode::ssz_append(&self.#m, __b));),
        ),
        None => (
            quote!(<#t as ssz::Encode>::is_ssz_fixed_len()),
            quote!(<#t as ssz::Encode>::ssz_fixed_len()),
            quote!(ssz::Encode::ssz_bytes_len(&self.#m)),
            quote!(__e.append(&self.#m);),
        ),
    }
}

#[proc_macro_derive(Encode, attributes(ssz))]
pub fn encode(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let o = opts(&item.attrs);
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let body = match &item.data {
        Data::Struct(s) => {
            let fs: Vec<F> = fields(&s.fields).into_iter().filter(|f| !f.o.skip_ser).collect();
            if o.struct_behaviour.as_deref() == Some("transparent") {
                let (fx, fl, bl, _) = enc(&fs[0]);
                let m = &fs[0].member;
                quote! {
                    fn is_ssz_fixed_len() -> bool { #fx }
                    fn ssz_fixed_len() -> usize { #fl }
                    fn ssz_bytes_len(&self) -> usize { #bl }
                    fn ssz_append(&self, buf: &mut Vec<u8>) { ssz::Encode::ssz_append(&self.#m, buf) }
                }
            } else {
                let es: Vec<_> = fs.iter().map(enc).collect();
                let fx: Vec<_> = es.iter().map(|e| &e.0).collect();
                let fl: Vec<_> = es.iter().map(|e| &e.1).collect();
                let bl: Vec<_> = es.iter().map(|e| &e.2).collect();
                let ap: Vec<_> = es.iter().map(|e| &e.3).collect();
                quote! {
                    fn is_ssz_fixed_len() -> bool { true #(&& #fx)* }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ssz::Encode>::is_ssz_fixed_len() { 0usize #(+ #fl)* } else { ssz::BYTES_PER_LENGTH_OFFSET }
                    }
                    fn ssz_bytes_len(&self) -> usize {
                        if <Self as ssz::Encode>::is_ssz_fixed_len() {
                            <Self as ssz::Encode>::ssz_fixed_len()
                        } else {
                            0usize #(+ if #fx { #fl } else { ssz::BYTES_PER_LENGTH_OFFSET + #bl })*
                        }
                    }
                    fn ssz_append(&self, buf: &mut Vec<u8>) {
                        let mut __e = ssz::SszEncoder::container(buf, 0usize #(+ #fl)*);
                        #(#ap)*
                        __e.finalize();
                    }
                }
            }
        }
        Data::Enum(e) => {
            let b = o.enum_behaviour.expect("enum_behaviour");
            enum_encode(e, &b)
        }
        _ => panic!("unsupported item"),
    };
    quote! { impl #ig ssz::Encode for #name #tg #wc { #body } }.into()
}
fn payload(e: &DataEnum) -> Vec<(syn::Ident, syn::Type)> {
    e.variants
        .iter()
        .map(|v| (v.ident.clone(), v.fields.iter().next().expect("a payload").ty.clone()))
        .collect()
}
fn enum_encode(e: &DataEnum, b: &str) -> T2 {
    match b {
        "transparent" => {
            let p = payload(e);
            let (n, t): (Vec<_>, Vec<_>) = p.into_iter().unzip();
            quote! {
                fn is_ssz_fixed_len() -> bool {
                    assert!(true #(&& !<#t as ssz::Encode>::is_ssz_fixed_len())*, "not all enum variants are variably-sized");
                    false
                }
                fn ssz_bytes_len(&self) -> usize { match self { #(Self::#n(v) => ssz::Encode::ssz_bytes_len(v),)* } }
                fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #(Self::#n(v) => ssz::Encode::ssz_append(v, buf),)* } }
            }
        }
        "union" => {
            let p = payload(e);
            let s: Vec<u8> = (0..p.len() as u8).collect();
            let (n, _t): (Vec<_>, Vec<_>) = p.into_iter().unzip();
            quote! {
                fn is_ssz_fixed_len() -> bool { false }
                fn ssz_bytes_len(&self) -> usize { 1 + match self { #(Self::#n(v) => ssz::Encode::ssz_bytes_len(v),)* } }
                fn ssz_append(&self, buf: &mut Vec<u8>) {
                    match self { #(Self::#n(v) => { buf.push(#s); ssz::Encode::ssz_append(v, buf) })* }
                }
            }
        }
        "tag" => {
            let n: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let s: Vec<u8> = (0..n.len() as u8).collect();
            quote! {
                fn is_ssz_fixed_len() -> bool { true }
                fn ssz_fixed_len() -> usize { 1 }
                fn ssz_bytes_len(&self) -> usize { 1 }
                fn ssz_append(&self, buf: &mut Vec<u8>) { buf.push(match self { #(Self::#n => #s,)* }) }
            }
        }
        o => panic!("unknown enum behaviour {o}"),
    }
}

#[proc_macro_derive(Decode, attributes(ssz))]
pub fn decode(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let o = opts(&item.attrs);
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let body = match &item.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            if o.struct_behaviour.as_deref() == Some("transparent") {
                let t = &fs.iter().find(|f| !f.o.skip_de).unwrap().ty;
                let sets: Vec<T2> = fs
                    .iter()
                    .map(|f| {
                        let m = &f.member;
                        if f.o.skip_de {
                            quote!(#m: <_>::default())
                        } else {
                            quote!(#m: ssz::Decode::from_ssz_bytes(bytes)?)
                        }
                    })
                    .collect();
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#t as ssz::Decode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#t as ssz::Decode>::ssz_fixed_len() }
                    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> { Ok(Self { #(#sets),* }) }
                }
            } else {
                let live: Vec<&F> = fs.iter().filter(|f| !f.o.skip_de).collect();
                let fx: Vec<T2> = live
                    .iter()
                    .map(|f| match &f.o.with {
                        Some(p) => quote!(#p::decode::is_ssz_fixed_len()),
                        None => {
                            let t = &f.ty;
                            quote!(<#t as ssz::Decode>::is_ssz_fixed_len())
                        }
                    })
                    .collect();
                let fl: Vec<T2> = live
                    .iter()
                    .map(|f| match &f.o.with {
                        Some(p) => quote!(#p::decode::ssz_fixed_len()),
                        None => {
                            let t = &f.ty;
                            quote!(<#t as ssz::Decode>::ssz_fixed_len())
                        }
                    })
                    .collect();
                let n = live.len();
                let vars: Vec<_> = (0..n).map(|i| format_ident!("__f{i}")).collect();
                let reads: Vec<T2> = live
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let v = &vars[i];
                        let t = &f.ty;
                        match &f.o.with {
                            Some(p) => quote!(let #v: #t = #p::decode::from_ssz_bytes(&bytes[__p[#i].0..__p[#i].1])?;),
                            None => quote!(let #v: #t = <#t as ssz::Decode>::from_ssz_bytes(&bytes[__p[#i].0..__p[#i].1])?;),
                        }
                    })
                    .collect();
                let mut k = 0;
                let sets: Vec<T2> = fs
                    .iter()
                    .map(|f| {
                        let m = &f.member;
                        if f.o.skip_de {
                            quote!(#m: <_>::default())
                        } else {
                            let v = &vars[k];
                            k += 1;
                            quote!(#m: #v)
                        }
                    })
                    .collect();
                quote! {
                    fn is_ssz_fixed_len() -> bool { true #(&& #fx)* }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ssz::Decode>::is_ssz_fixed_len() { 0usize #(+ #fl)* } else { ssz::BYTES_PER_LENGTH_OFFSET }
                    }
                    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                        let __p: [(usize, usize); #n] = ssz::parts(bytes, &[#(if #fx { Some(#fl) } else { None }),*])?;
                        #(#reads)*
                        Ok(Self { #(#sets),* })
                    }
                }
            }
        }
        Data::Enum(e) => {
            let b = o.enum_behaviour.expect("enum_behaviour");
            match b.as_str() {
                "transparent" => {
                    let (n, t): (Vec<_>, Vec<_>) = payload(e).into_iter().unzip();
                    quote! {
                        fn is_ssz_fixed_len() -> bool {
                            assert!(true #(&& !<#t as ssz::Decode>::is_ssz_fixed_len())*, "not all enum variants are variably-sized");
                            false
                        }
                        fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                            #(if let Ok(v) = <#t as ssz::Decode>::from_ssz_bytes(bytes) { return Ok(Self::#n(v)); })*
                            Err(ssz::DecodeError::NoMatchingVariant)
                        }
                    }
                }
                "union" => {
                    let p = payload(e);
                    let s: Vec<u8> = (0..p.len() as u8).collect();
                    let (n, t): (Vec<_>, Vec<_>) = p.into_iter().unzip();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                            let (selector, body) = ssz::split_union_bytes(bytes)?;
                            match selector {
                                #(#s => Ok(Self::#n(<#t as ssz::Decode>::from_ssz_bytes(body)?)),)*
                                other => Err(ssz::DecodeError::UnionSelectorInvalid(other)),
                            }
                        }
                    }
                }
                "tag" => {
                    let n: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
                    let s: Vec<u8> = (0..n.len() as u8).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { true }
                        fn ssz_fixed_len() -> usize { 1 }
                        fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                            if bytes.is_empty() { return Err(ssz::DecodeError::OutOfBoundsByte { i: 0 }); }
                            if bytes.len() != 1 { return Err(ssz::DecodeError::InvalidByteLength { len: bytes.len(), expected: 1 }); }
                            match bytes[0] {
                                #(#s => Ok(Self::#n),)*
                                other => Err(ssz::DecodeError::UnionSelectorInvalid(other)),
                            }
                        }
                    }
                }
                o => panic!("unknown enum behaviour {o}"),
            }
        }
        _ => panic!("unsupported item"),
    };
    quote! { impl #ig ssz::Decode for #name #tg #wc { #body } }.into()
}
