//! `Encode` / `Decode` derives of the SCALE stand-in.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, Attribute, Data, DeriveInput, Expr, Field, Fields, Generics, Index};

fn codec_flag(attrs: &[Attribute], flag: &str) -> bool {
    let mut found = false;
    for a in attrs.iter().filter(|a| a.path().is_ident("codec")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident(flag) {
                found = true;
            } else if m.input.peek(syn::Token![=]) {
                let _: Expr = m.value()?.parse()?;
            } else if m.input.peek(syn::token::Paren) {
                let c;
                syn::parenthesized!(c in m.input);
                let _: TokenStream = c.parse()?;
            }
            Ok(())
        });
    }
    found
}

fn codec_index(attrs: &[Attribute]) -> Option<Expr> {
    let mut r = None;
    for a in attrs.iter().filter(|a| a.path().is_ident("codec")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("index") {
                r = Some(m.value()?.parse::<Expr>()?);
            }
            Ok(())
        });
    }
    r
}

fn mentions(ts: TokenStream, params: &[syn::Ident]) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => params.contains(&i),
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), params),
        _ => false,
    })
}

/// Adds `FieldType: Trait` for every field type that mentions a type parameter.
fn bounds(g: &mut Generics, data: &Data, tr: TokenStream) {
    let params: Vec<_> = g.type_params().map(|t| t.ident.clone()).collect();
    if params.is_empty() {
        return;
    }
    let fields: Vec<Field> = match data {
        Data::Struct(s) => s.fields.iter().cloned().collect(),
        Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().cloned()).collect(),
        _ => vec![],
    };
    let w = g.make_where_clause();
    for f in fields {
        let ty = &f.ty;
        if mentions(quote!(#ty), &params) && !codec_flag(&f.attrs, "skip") {
            w.predicates.push(parse_quote!(#ty: #tr));
        }
    }
}

fn enc_field(access: TokenStream, f: &Field) -> TokenStream {
    if codec_flag(&f.attrs, "skip") {
        return quote!();
    }
    if codec_flag(&f.attrs, "compact") {
        let ty = &f.ty;
        quote! { <#ty as ::parity_scale_codec::HasCompact>::encode_compact_to(#access, __dest); }
    } else {
        quote! { ::parity_scale_codec::Encode::encode_to(#access, __dest); }
    }
}

fn dec_field(name: &str, f: &Field) -> TokenStream {
    let ty = &f.ty;
    if codec_flag(&f.attrs, "skip") {
        return quote!(::core::default::Default::default());
    }
    let msg = format!("Could not decode `{name}`");
    if codec_flag(&f.attrs, "compact") {
        quote! { <#ty as ::parity_scale_codec::HasCompact>::decode_compact(__input)
            .map_err(|e| e.chain(#msg))? }
    } else {
        quote! { <#ty as ::parity_scale_codec::Decode>::decode(__input)
            .map_err(|e| e.chain(#msg))? }
    }
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut d = parse_macro_input!(input as DeriveInput);
    bounds(&mut d.generics, &d.data, quote!(::parity_scale_codec::Encode));
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => {
            let parts = s.fields.iter().enumerate().map(|(i, f)| match &f.ident {
                Some(id) => enc_field(quote!(&self.#id), f),
                None => {
                    let ix = Index::from(i);
                    enc_field(quote!(&self.#ix), f)
                }
            });
            quote!(#(#parts)*)
        }
        Data::Enum(e) if e.variants.is_empty() => quote!(),
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(i, v)| {
                let vn = &v.ident;
                let idx = variant_index(i, v);
                let names: Vec<_> = v
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(j, f)| f.ident.clone().unwrap_or_else(|| format_ident!("f{}", j)))
                    .collect();
                let enc = v.fields.iter().zip(&names).map(|(f, n)| enc_field(quote!(#n), f));
                let pat = match &v.fields {
                    Fields::Unit => quote!(),
                    Fields::Unnamed(_) => quote!((#(#names),*)),
                    Fields::Named(_) => quote!({ #(#names),* }),
                };
                quote! { #name::#vn #pat => { __dest.push_byte((#idx) as u8); #(#enc)* } }
            });
            quote!(match self { #(#arms)* })
        }
        _ => quote!(compile_error!("union")),
    };
    quote! {
        #[allow(deprecated, unused_variables, clippy::all)]
        const _: () = {
            impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
                fn encode_to<__O: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, __dest: &mut __O) {
                    #body
                }
            }
            impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
        };
    }
    .into()
}

fn variant_index(i: usize, v: &syn::Variant) -> TokenStream {
    if let Some(e) = codec_index(&v.attrs) {
        quote!(#e)
    } else if let Some((_, e)) = &v.discriminant {
        quote!(#e)
    } else {
        let i = i as u8;
        quote!(#i)
    }
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut d = parse_macro_input!(input as DeriveInput);
    bounds(&mut d.generics, &d.data, quote!(::parity_scale_codec::Decode));
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let build = |path: TokenStream, pname: &str, fields: &Fields| match fields {
        Fields::Unit => quote!(#path),
        Fields::Unnamed(u) => {
            let p = u.unnamed.iter().enumerate().map(|(i, f)| dec_field(&format!("{pname}.{i}"), f));
            quote!(#path(#(#p),*))
        }
        Fields::Named(n) => {
            let p = n.named.iter().map(|f| {
                let id = f.ident.as_ref().unwrap();
                let e = dec_field(&format!("{pname}::{id}"), f);
                quote!(#id: #e)
            });
            quote!(#path { #(#p),* })
        }
    };
    let body = match &d.data {
        Data::Struct(s) => {
            let b = build(quote!(#name), &name.to_string(), &s.fields);
            quote!(Ok(#b))
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(i, v)| {
                let vn = &v.ident;
                let idx = variant_index(i, v);
                let b = build(quote!(#name::#vn), &format!("{name}::{vn}"), &v.fields);
                quote!(__x if __x == ((#idx) as u8) => { return Ok(#b); })
            });
            let m1 = format!("Could not decode `{name}`, failed to read variant byte");
            let m2 = format!("Could not decode `{name}`, variant doesn't exist");
            quote! {
                match __input.read_byte().map_err(|e| e.chain(#m1))? {
                    #(#arms)*
                    _ => Err(::parity_scale_codec::Error::from(#m2)),
                }
            }
        }
        _ => quote!(compile_error!("union")),
    };
    quote! {
        #[allow(deprecated, unused_variables, unreachable_patterns, clippy::all)]
        const _: () = {
            impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
                fn decode<__I: ::parity_scale_codec::Input>(__input: &mut __I)
                    -> ::core::result::Result<Self, ::parity_scale_codec::Error> {
                    #body
                }
            }
        };
    }
    .into()
}
