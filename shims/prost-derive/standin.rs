//! Derives the stand-in `prost::Message` and `prost::Oneof`: the wire format of protocol buffers
//! for the kinds of field core/network uses.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, Lit, Meta, NestedMeta};

struct Spec {
    kind: String,
    tags: Vec<u32>,
}

fn spec(attrs: &[syn::Attribute]) -> Spec {
    let (mut kind, mut repeated, mut tags) = (String::new(), false, vec![]);
    for a in attrs.iter().filter(|a| a.path.is_ident("prost")) {
        let list = match a.parse_meta().expect("prost attribute") {
            Meta::List(l) => l,
            _ => panic!("prost attribute"),
        };
        for n in list.nested {
            match n {
                NestedMeta::Meta(Meta::Path(p)) => {
                    let name = p.get_ident().unwrap().to_string();
                    if name == "repeated" {
                        repeated = true
                    } else if name != "optional" && name != "required" {
                        kind = name
                    }
                }
                NestedMeta::Meta(Meta::NameValue(nv)) => {
                    let name = nv.path.get_ident().unwrap().to_string();
                    let text = match nv.lit {
                        Lit::Str(s) => s.value(),
                        Lit::Int(i) => i.base10_digits().to_owned(),
                        _ => panic!("prost attribute"),
                    };
                    match name.as_str() {
                        "tag" | "tags" => tags = text.split(',').map(|t| t.trim().parse().unwrap()).collect(),
                        "oneof" => kind = "oneof".into(),
                        "map" => {
                            assert_eq!(text.replace(' ', ""), "string,bytes", "this stand-in knows only maps of strings to bytes");
                            kind = "map".into()
                        }
                        "bytes" => kind = "bytes".into(),
                        _ => panic!("prost attribute {name}"),
                    }
                }
                _ => panic!("prost attribute"),
            }
        }
    }
    if repeated {
        kind = format!("repeated_{kind}");
    }
    if kind == "bool" {
        kind = "boolean".into();
    }
    Spec { kind, tags }
}

#[proc_macro_derive(Message, attributes(prost))]
pub fn message(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.iter().collect::<Vec<_>>(),
            Fields::Unit => vec![],
            _ => panic!("named fields"),
        },
        _ => panic!("a struct"),
    };
    let (mut put, mut merge, mut idents) = (vec![], vec![], vec![]);
    for f in fields {
        let id = f.ident.as_ref().unwrap();
        let s = spec(&f.attrs);
        let kind = format_ident!("{}", s.kind);
        let tags = &s.tags;
        idents.push(id);
        if s.kind == "oneof" {
            put.push(quote! { ::prost::rt::oneof::put(&self.#id, out); });
            merge.push(quote! { #(#tags)|* => ::prost::rt::oneof::merge(&mut self.#id, tag, wire, buf, depth), });
        } else {
            let tag = tags[0];
            put.push(quote! { ::prost::rt::#kind::put(#tag, &self.#id, out); });
            merge.push(quote! { #tag => ::prost::rt::#kind::merge(&mut self.#id, wire, buf, depth), });
        }
    }
    let text = name.to_string();
    quote! {
        impl ::prost::Message for #name {
            fn put_all(&self, out: &mut ::std::vec::Vec<u8>) { #(#put)* }
            fn merge_one(&mut self, tag: u32, wire: u8, buf: &mut &[u8], depth: u32) -> ::std::result::Result<(), ::prost::DecodeError> {
                match tag { #(#merge)* _ => ::prost::rt::skip(tag, wire, buf, depth) }
            }
        }
        impl ::std::default::Default for #name {
            fn default() -> Self { #name { #(#idents: ::std::default::Default::default()),* } }
        }
        impl ::std::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.debug_struct(#text)#(.field(stringify!(#idents), &self.#idents))*.finish()
            }
        }
    }
    .into()
}

#[proc_macro_derive(Oneof, attributes(prost))]
pub fn oneof(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let data = match &input.data {
        Data::Enum(e) => e,
        _ => panic!("an enum"),
    };
    let (mut put, mut merge, mut debug) = (vec![], vec![], vec![]);
    for v in &data.variants {
        let id = &v.ident;
        let s = spec(&v.attrs);
        let tag = s.tags[0];
        let text = id.to_string();
        debug.push(quote! { #name::#id(v) => f.debug_tuple(#text).field(v).finish(), });
        if s.kind == "message" {
            put.push(quote! { #name::#id(v) => ::prost::rt::message::put_one(#tag, v, out), });
            merge.push(quote! { #tag => {
                let mut value = match slot.take() { Some(#name::#id(v)) => v, _ => ::std::default::Default::default() };
                ::prost::rt::message::merge_one(&mut value, wire, buf, depth)?;
                *slot = Some(#name::#id(value));
                Ok(())
            } });
        } else {
            let kind = format_ident!("{}", s.kind);
            put.push(quote! { #name::#id(v) => ::prost::rt::#kind::put_always(#tag, v, out), });
            merge.push(quote! { #tag => {
                let mut value = ::std::default::Default::default();
                ::prost::rt::#kind::merge(&mut value, wire, buf, depth)?;
                *slot = Some(#name::#id(value));
                Ok(())
            } });
        }
    }
    quote! {
        impl ::prost::rt::OneofField for #name {
            fn put(&self, out: &mut ::std::vec::Vec<u8>) { match self { #(#put)* } }
            fn merge(slot: &mut ::std::option::Option<Self>, tag: u32, wire: u8, buf: &mut &[u8], depth: u32) -> ::std::result::Result<(), ::prost::DecodeError> {
                match tag { #(#merge)* _ => unreachable!() }
            }
        }
        impl ::std::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { match self { #(#debug)* } }
        }
    }
    .into()
}
