//! derive(Serialize, Deserialize) for the byte-codec model in `kenv::ser`:
//! fields in declaration order, enum variants by position, honouring
//! `with`, `serialize_with`, `deserialize_with`, `skip*` and `default`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Field, Fields};

#[derive(Default)]
struct Attr {
    ser_with: Option<syn::Path>,
    de_with: Option<syn::Path>,
    skip_ser: bool,
    skip_de: bool,
}
fn attr(attrs: &[syn::Attribute]) -> Attr {
    let mut a = Attr::default();
    for at in attrs.iter().filter(|a| a.path().is_ident("serde")) {
        let _ = at.parse_nested_meta(|m| {
            let name = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let val: Option<syn::LitStr> = if m.input.peek(syn::Token![=]) {
                Some(m.value()?.parse()?)
            } else {
                None
            };
            match (name.as_str(), val) {
                ("with", Some(v)) => {
                    let p: syn::Path = v.parse()?;
                    let mut s = p.clone();
                    s.segments.push(syn::parse_quote!(serialize));
                    let mut d = p;
                    d.segments.push(syn::parse_quote!(deserialize));
                    a.ser_with = Some(s);
                    a.de_with = Some(d);
                }
                ("serialize_with", Some(v)) => a.ser_with = Some(v.parse()?),
                ("deserialize_with", Some(v)) => a.de_with = Some(v.parse()?),
                ("skip", _) => {
                    a.skip_ser = true;
                    a.skip_de = true;
                }
                ("skip_serializing", _) => a.skip_ser = true,
                ("skip_deserializing", _) => a.skip_de = true,
                _ => {}
            }
            Ok(())
        });
    }
    a
}
fn ser_field(f: &Field, e: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    let a = attr(&f.attrs);
    if a.skip_ser {
        quote!()
    } else if let Some(p) = a.ser_with {
        quote!(#p(#e, __w);)
    } else {
        quote!(::serde::Serialize::ser(#e, __w);)
    }
}
fn de_field(f: &Field) -> proc_macro2::TokenStream {
    let a = attr(&f.attrs);
    if a.skip_de {
        quote!(::core::default::Default::default())
    } else if let Some(p) = a.de_with {
        quote!(#p(__r))
    } else {
        quote!(::serde::Deserialize::de(__r))
    }
}

#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wh) = d.generics.split_for_impl();
    let mut tags = quote!();
    if let Data::Enum(e) = &d.data {
        let cs = e.variants.iter().enumerate().map(|(n, v)| {
            let n = n as u8;
            let c = format_ident!("TAG_{}", v.ident.to_string().to_uppercase());
            quote!(pub const #c: u8 = #n;)
        });
        tags = quote!(impl #ig #name #tg #wh { #(#cs)* });
    }
    let body = match &d.data {
        Data::Struct(s) => {
            let fs = s.fields.iter().enumerate().map(|(i, f)| {
                let m: syn::Member = match &f.ident {
                    Some(id) => syn::Member::Named(id.clone()),
                    None => syn::Member::Unnamed(i.into()),
                };
                ser_field(f, quote!(&self.#m))
            });
            quote!(#(#fs)*)
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(n, v)| {
                let n = n as u8;
                let vi = &v.ident;
                let binds: Vec<_> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect();
                let fs = v.fields.iter().zip(&binds).map(|(f, b)| ser_field(f, quote!(#b)));
                let pat = match &v.fields {
                    Fields::Named(nf) => {
                        let ids = nf.named.iter().map(|f| f.ident.clone().unwrap());
                        quote!(#name::#vi { #(#ids: #binds),* })
                    }
                    Fields::Unnamed(_) => quote!(#name::#vi( #(#binds),* )),
                    Fields::Unit => quote!(#name::#vi),
                };
                quote!(#pat => { __w.put(#n); #(#fs)* })
            });
            quote!(match self { #(#arms)* })
        }
        _ => panic!("union"),
    };
    quote!(
        #[allow(dead_code)]
        #tags
        #[allow(unused_variables)]
        impl #ig ::serde::Serialize for #name #tg #wh {
            fn ser(&self, __w: &mut ::serde::W) { #body }
        }
    )
    .into()
}

#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let name = &d.ident;
    let (_, tg, _) = d.generics.split_for_impl();
    // 'de is the lifetime of the type when it has one (borrowed data)
    let lt = d.generics.lifetimes().next().map(|l| l.lifetime.clone());
    let (ig, de) = match &lt {
        Some(l) => (quote!(<#l>), quote!(#l)),
        None => (quote!(<'de>), quote!('de)),
    };
    let mk = |path: proc_macro2::TokenStream, fields: &Fields| match fields {
        Fields::Named(nf) => {
            let fs = nf.named.iter().map(|f| {
                let id = &f.ident;
                let e = de_field(f);
                quote!(#id: #e)
            });
            quote!(#path { #(#fs),* })
        }
        Fields::Unnamed(uf) => {
            let fs = uf.unnamed.iter().map(de_field);
            quote!(#path ( #(#fs),* ))
        }
        Fields::Unit => path,
    };
    let body = match &d.data {
        Data::Struct(s) => {
            let e = mk(quote!(#name), &s.fields);
            quote!(#e)
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(n, v)| {
                let n = n as u8;
                let vi = &v.ident;
                let e = mk(quote!(#name::#vi), &v.fields);
                quote!(#n => #e)
            });
            let first = e.variants.first().unwrap();
            let fi = &first.ident;
            let z = mk(quote!(#name::#fi), &first.fields);
            quote!(match __r.get() { #(#arms,)* _ => { __r.bad = true; #z } })
        }
        _ => panic!("union"),
    };
    quote!(
        #[allow(unused_variables)]
        impl #ig ::serde::Deserialize<#de> for #name #tg {
            fn de(__r: &mut ::serde::R<#de>) -> Self { #body }
        }
    )
    .into()
}
