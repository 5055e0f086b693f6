use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_attribute]
pub fn bitflags(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut e = syn::parse_macro_input!(item as syn::ItemEnum);
    let name = e.ident.clone();
    let vars: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    for (i, v) in e.variants.iter_mut().enumerate() {
        if v.discriminant.is_none() {
            let lit = proc_macro2::Literal::u64_unsuffixed(1u64 << i);
            v.discriminant = Some((Default::default(), syn::parse_quote!(#lit)));
        }
    }
    quote! {
        #e
        impl ::enumflags2::BitFlag for #name {
            const ITEMS: &'static [Self] = &[#(#name::#vars),*];
            fn bit(self) -> u64 { self as u64 }
        }
    }
    .into()
}
