use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn members(data: &Data) -> (Vec<syn::Member>, bool) {
    match data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => (n.named.iter().map(|f| syn::Member::Named(f.ident.clone().unwrap())).collect(), true),
            Fields::Unnamed(u) => ((0..u.unnamed.len()).map(|i| syn::Member::Unnamed(i.into())).collect(), false),
            Fields::Unit => (vec![], true),
        },
        _ => panic!("only structs are supported"),
    }
}

#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let (m, _) = members(&d.data);
    quote! {
        impl #ig ::ark_serialize::CanonicalSerialize for #name #tg #wc {
            fn serialize_with_mode<WSHIM: ::ark_serialize::Write>(&self, mut writer: WSHIM, compress: ::ark_serialize::Compress) -> ::core::result::Result<(), ::ark_serialize::SerializationError> {
                #( ::ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#m, &mut writer, compress)?; )*
                Ok(())
            }
            fn serialized_size(&self, compress: ::ark_serialize::Compress) -> usize {
                0 #( + ::ark_serialize::CanonicalSerialize::serialized_size(&self.#m, compress) )*
            }
        }
    }.into()
}

#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let (m, _) = members(&d.data);
    let wc2 = wc;
    quote! {
        impl #ig ::ark_serialize::Valid for #name #tg #wc {
            fn check(&self) -> ::core::result::Result<(), ::ark_serialize::SerializationError> {
                #( ::ark_serialize::Valid::check(&self.#m)?; )*
                Ok(())
            }
        }
        impl #ig ::ark_serialize::CanonicalDeserialize for #name #tg #wc2 {
            fn deserialize_with_mode<RSHIM: ::ark_serialize::Read>(mut reader: RSHIM, compress: ::ark_serialize::Compress, validate: ::ark_serialize::Validate) -> ::core::result::Result<Self, ::ark_serialize::SerializationError> {
                Ok(Self { #( #m: ::ark_serialize::CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?, )* })
            }
        }
    }.into()
}
