#![allow(dead_code, unused_variables, clippy::all)]

//! Interface stub.
use quote::quote;

#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = syn::parse_macro_input!(input as syn::DeriveInput);
    let name = &input.ident;
    let syn::Data::Enum(data) = &input.data else {
        panic!("not an enum")
    };
    let vs = data.variants.iter().map(|v| &v.ident);
    let n = data.variants.len();
    quote! {
        impl ::strum::IntoEnumIterator for #name {
            type Iterator = ::std::array::IntoIter<#name, #n>;
            fn iter() -> Self::Iterator {
                [#(#name::#vs),*].into_iter()
            }
        }
    }
    .into()
}
