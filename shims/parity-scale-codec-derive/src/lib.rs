//! `Encode` / `Decode` derive macros (SCALE), for the attribute subset mintlayer-core uses:
//! `#[codec(index = N)]`, `#[codec(compact)]`, `#[codec(skip)]`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{
    parse_macro_input, visit::Visit, Data, DeriveInput, Expr, Field, Fields, Generics, Ident, Type,
    Variant,
};

#[derive(Default)]
struct Attrs {
    index: Option<Expr>,
    compact: bool,
    skip: bool,
}

fn attrs(list: &[syn::Attribute]) -> Attrs {
    let mut out = Attrs::default();
    for a in list {
        if !a.path().is_ident("codec") {
            continue;
        }
        a.parse_nested_meta(|m| {
            if m.path.is_ident("index") {
                out.index = Some(m.value()?.parse()?);
            } else if m.path.is_ident("compact") {
                out.compact = true;
            } else if m.path.is_ident("skip") {
                out.skip = true;
            } else {
                return Err(m.error("unsupported codec attribute"));
            }
            Ok(())
        })
        .expect("codec attribute");
    }
    out
}

struct Uses<'a>(&'a [Ident], bool);
impl<'ast> Visit<'ast> for Uses<'_> {
    fn visit_ident(&mut self, i: &'ast Ident) {
        if self.0.contains(i) {
            self.1 = true;
        }
    }
    fn visit_macro(&mut self, _: &'ast syn::Macro) {}
}

fn uses(ty: &Type, params: &[Ident]) -> bool {
    let mut u = Uses(params, false);
    u.visit_type(ty);
    u.1
}

fn all_fields(data: &Data) -> Vec<&Field> {
    match data {
        Data::Struct(s) => s.fields.iter().collect(),
        Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter()).collect(),
        Data::Union(_) => panic!("unions are not supported"),
    }
}

fn bounded(
    generics: &Generics,
    data: &Data,
    bound: &TS,
    compact_bound: &TS,
    skip_bound: Option<TS>,
) -> Generics {
    let mut g = generics.clone();
    let params: Vec<Ident> = generics.type_params().map(|p| p.ident.clone()).collect();
    if params.is_empty() {
        return g;
    }
    let mut preds: Vec<TS> = Vec::new();
    for f in all_fields(data) {
        if !uses(&f.ty, &params) {
            continue;
        }
        let a = attrs(&f.attrs);
        let ty = &f.ty;
        if a.skip {
            if let Some(b) = &skip_bound {
                preds.push(quote!(#ty: #b));
            }
        } else if a.compact {
            preds.push(quote!(#ty: #compact_bound));
        } else {
            preds.push(quote!(#ty: #bound));
        }
    }
    let w = g.make_where_clause();
    for p in preds {
        w.predicates.push(syn::parse2(p).expect("where predicate"));
    }
    g
}

fn variant_index(v: &Variant, pos: usize) -> TS {
    if let Some(e) = attrs(&v.attrs).index {
        return quote!((#e) as u8);
    }
    if let Some((_, e)) = &v.discriminant {
        return quote!((#e) as u8);
    }
    let p = pos as u8;
    quote!(#p)
}

fn enc_field(a: &Attrs, f: &Field, r: TS) -> TS {
    let ty = &f.ty;
    if a.skip {
        quote!(let _ = #r;)
    } else if a.compact {
        quote!(
            ::parity_scale_codec::Encode::encode_to(
                &<<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::EncodeAsRef<'_, #ty>>::RefType::from(#r),
                __dest,
            );
        )
    } else {
        quote!(::parity_scale_codec::Encode::encode_to(#r, __dest);)
    }
}

fn hint_field(a: &Attrs, f: &Field, r: TS) -> TS {
    let ty = &f.ty;
    if a.skip {
        quote!(let _ = #r;)
    } else if a.compact {
        quote!(__n = __n.saturating_add(::parity_scale_codec::Encode::size_hint(
            &<<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::EncodeAsRef<'_, #ty>>::RefType::from(#r)));)
    } else {
        quote!(__n = __n.saturating_add(::parity_scale_codec::Encode::size_hint(#r));)
    }
}

fn names(fields: &Fields) -> Vec<Ident> {
    fields
        .iter()
        .enumerate()
        .map(|(i, _)| format_ident!("__f{}", i))
        .collect()
}

fn pattern(fields: &Fields, names: &[Ident]) -> TS {
    match fields {
        Fields::Named(n) => {
            let ids = n.named.iter().map(|f| f.ident.as_ref().unwrap());
            quote!({ #(#ids: #names),* })
        }
        Fields::Unnamed(_) => quote!(( #(#names),* )),
        Fields::Unit => quote!(),
    }
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let g = bounded(
        &input.generics,
        &input.data,
        &quote!(::parity_scale_codec::Encode),
        &quote!(::parity_scale_codec::HasCompact),
        None,
    );
    let (ig, tg, wc) = g.split_for_impl();
    let (enc, hint) = match &input.data {
        Data::Struct(s) => {
            let ns = names(&s.fields);
            let p = pattern(&s.fields, &ns);
            let e: Vec<TS> =
                s.fields.iter().zip(&ns).map(|(f, n)| enc_field(&attrs(&f.attrs), f, quote!(#n))).collect();
            let h: Vec<TS> =
                s.fields.iter().zip(&ns).map(|(f, n)| hint_field(&attrs(&f.attrs), f, quote!(#n))).collect();
            (
                quote!(let Self #p = self; #(#e)*),
                quote!(let mut __n = 0usize; let Self #p = self; #(#h)* __n),
            )
        }
        Data::Enum(en) => {
            let mut earms = Vec::new();
            let mut harms = Vec::new();
            let mut pos = 0usize;
            for v in &en.variants {
                let a = attrs(&v.attrs);
                let ns = names(&v.fields);
                let p = pattern(&v.fields, &ns);
                let vi = &v.ident;
                if a.skip {
                    earms.push(quote!(Self::#vi { .. } => (),));
                    harms.push(quote!(Self::#vi { .. } => 0,));
                    continue;
                }
                let idx = variant_index(v, pos);
                pos += 1;
                let e: Vec<TS> = v.fields.iter().zip(&ns).map(|(f, n)| enc_field(&attrs(&f.attrs), f, quote!(#n))).collect();
                let h: Vec<TS> = v.fields.iter().zip(&ns).map(|(f, n)| hint_field(&attrs(&f.attrs), f, quote!(#n))).collect();
                earms.push(quote!(Self::#vi #p => { __dest.push_byte(#idx); #(#e)* }));
                harms.push(quote!(Self::#vi #p => { let mut __n = 1usize; #(#h)* __n }));
            }
            if en.variants.is_empty() {
                (quote!(match *self {}), quote!(match *self {}))
            } else {
                (
                    quote!(match self { #(#earms)* }),
                    quote!(match self { #(#harms)* }),
                )
            }
        }
        Data::Union(_) => unreachable!(),
    };
    quote! {
        #[allow(deprecated, unused_variables, clippy::all)]
        const _: () = {
            #[automatically_derived]
            impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
                fn size_hint(&self) -> usize { #hint }
                fn encode_to<__O: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, __dest: &mut __O) { #enc }
            }
            #[automatically_derived]
            impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
        };
    }
    .into()
}

fn dec_fields(fields: &Fields, ctx: &str) -> TS {
    let vals: Vec<TS> = fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let a = attrs(&f.attrs);
            let ty = &f.ty;
            let fname = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
            let msg = format!("Could not decode `{ctx}::{fname}`");
            if a.skip {
                quote!(::core::default::Default::default())
            } else if a.compact {
                quote!(
                    match <<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(__input) {
                        Ok(x) => x.into(),
                        Err(e) => return Err(e.chain(#msg)),
                    }
                )
            } else {
                quote!(
                    match <#ty as ::parity_scale_codec::Decode>::decode(__input) {
                        Ok(x) => x,
                        Err(e) => return Err(e.chain(#msg)),
                    }
                )
            }
        })
        .collect();
    match fields {
        Fields::Named(n) => {
            let ids = n.named.iter().map(|f| f.ident.as_ref().unwrap());
            quote!({ #(#ids: #vals),* })
        }
        Fields::Unnamed(_) => quote!(( #(#vals),* )),
        Fields::Unit => quote!(),
    }
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let g = bounded(
        &input.generics,
        &input.data,
        &quote!(::parity_scale_codec::Decode),
        &quote!(::parity_scale_codec::HasCompact),
        Some(quote!(::core::default::Default)),
    );
    let (ig, tg, wc) = g.split_for_impl();
    let body = match &input.data {
        Data::Struct(s) => {
            let f = dec_fields(&s.fields, &name.to_string());
            quote!(Ok(Self #f))
        }
        Data::Enum(en) => {
            let mut arms = Vec::new();
            let mut pos = 0usize;
            for v in &en.variants {
                if attrs(&v.attrs).skip {
                    continue;
                }
                let idx = variant_index(v, pos);
                pos += 1;
                let vi = &v.ident;
                let f = dec_fields(&v.fields, &format!("{name}::{vi}"));
                arms.push(quote!(__x if __x == #idx => Ok(Self::#vi #f),));
            }
            let m1 = format!("Could not decode `{name}`, failed to read variant byte");
            let m2 = format!("Could not decode `{name}`, variant doesn't exist");
            quote!(
                let __b = match ::parity_scale_codec::Input::read_byte(__input) {
                    Ok(b) => b,
                    Err(e) => return Err(e.chain(#m1)),
                };
                match __b {
                    #(#arms)*
                    _ => Err(<_ as ::core::convert::Into<::parity_scale_codec::Error>>::into(#m2)),
                }
            )
        }
        Data::Union(_) => unreachable!(),
    };
    quote! {
        #[allow(deprecated, clippy::all)]
        const _: () = {
            #[automatically_derived]
            impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
                fn decode<__I: ::parity_scale_codec::Input>(__input: &mut __I) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { #body }
            }
        };
    }
    .into()
}
