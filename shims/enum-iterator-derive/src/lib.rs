use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(Sequence)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as syn::DeriveInput);
    let name = &input.ident;
    let syn::Data::Enum(e) = &input.data else { panic!("field-less enums only") };
    let v: Vec<_> = e.variants.iter().map(|v| { assert!(v.fields.is_empty()); &v.ident }).collect();
    let n = v.len();
    let mut next = Vec::new();
    let mut prev = Vec::new();
    for i in 0..n {
        let me = v[i];
        next.push(match v.get(i + 1) {
            Some(x) => quote!(Self::#me => Some(Self::#x),),
            None => quote!(Self::#me => None,),
        });
        prev.push(match i.checked_sub(1).map(|j| v[j]) {
            Some(x) => quote!(Self::#me => Some(Self::#x),),
            None => quote!(Self::#me => None,),
        });
    }
    let (f, l) = (v[0], v[n - 1]);
    quote! {
        impl ::enum_iterator::Sequence for #name {
            const CARDINALITY: usize = #n;
            fn next(&self) -> Option<Self> { match self { #(#next)* } }
            fn previous(&self) -> Option<Self> { match self { #(#prev)* } }
            fn first() -> Option<Self> { Some(Self::#f) }
            fn last() -> Option<Self> { Some(Self::#l) }
        }
    }
    .into()
}
