use proc_macro::{Delimiter, Group, Ident, TokenStream, TokenTree};

/// `mock! { pub Name {} impl Trait for Name { fn ..; } }` declares `pub struct MockName;` and the impls with
/// `unimplemented!()` bodies.
#[proc_macro]
pub fn mock(i: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = i.into_iter().collect();
    let p = v.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "pub")).expect("pub");
    let TokenTree::Ident(name) = &v[p + 1] else { panic!("name") };
    let name = name.to_string();
    let mut out: TokenStream = format!("#[allow(dead_code)] pub struct Mock{name};").parse().unwrap();
    for t in v.into_iter().skip(p + 3) {
        out.extend([match t {
            TokenTree::Ident(i) if i.to_string() == name => TokenTree::Ident(Ident::new(&format!("Mock{name}"), i.span())),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut in_fn = false;
                let mut o = TokenStream::new();
                for t in g.stream() {
                    match &t {
                        TokenTree::Ident(i) if i.to_string() == "fn" => in_fn = true,
                        TokenTree::Punct(p) if p.as_char() == ';' && in_fn => {
                            in_fn = false;
                            o.extend("{ unimplemented!() }".parse::<TokenStream>().unwrap());
                            continue;
                        }
                        _ => {}
                    }
                    o.extend([t]);
                }
                TokenTree::Group(Group::new(Delimiter::Brace, o))
            }
            t => t,
        }]);
    }
    out
}
#[proc_macro_attribute]
pub fn automock(_a: TokenStream, i: TokenStream) -> TokenStream {
    i
}
