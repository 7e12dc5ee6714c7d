use quote::quote;
#[proc_macro_derive(Sequence)]
pub fn d(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = syn::parse_macro_input!(i as syn::DeriveInput);
    let n = &d.ident;
    let syn::Data::Enum(e) = &d.data else { panic!("enum expected") };
    let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let ix = 0..v.len();
    quote! {
        impl ::enum_iterator::Sequence for #n {
            const VALUES: &'static [Self] = &[#(#n::#v),*];
            fn position(&self) -> usize { match self { #(#n::#v => #ix),* } }
        }
    }.into()
}
