use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, punctuated::Punctuated, Data, DeriveInput, Expr, Fields, Meta, Token};
fn last_ident(t: &syn::Type) -> String { if let syn::Type::Path(p) = t { p.path.segments.last().unwrap().ident.to_string() } else { String::new() } }
fn inner(t: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t { if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments { if let Some(syn::GenericArgument::Type(t)) = a.args.first() { return Some(t.clone()); } } }
    None
}
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let mut version = quote! { "unknown" };
    for a in &input.attrs {
        if a.path().is_ident("command") {
            if let Ok(ms) = a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) {
                for m in ms { if let Meta::NameValue(nv) = m { if nv.path.is_ident("version") { let v = nv.value; version = quote! { #v }; } } }
            }
        }
    }
    let Data::Struct(d) = &input.data else { panic!("struct expected") };
    let Fields::Named(fs) = &d.fields else { panic!("named fields expected") };
    let mut specs = vec![];
    let mut inits = vec![];
    for f in &fs.named {
        let id = f.ident.as_ref().unwrap();
        let mut long = id.to_string().replace('_', "-");
        let mut default: Option<Expr> = None;
        for a in &f.attrs {
            if a.path().is_ident("arg") || a.path().is_ident("clap") {
                let ms = a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).unwrap();
                for m in ms {
                    if let Meta::NameValue(nv) = m {
                        if nv.path.is_ident("long") { if let Expr::Lit(l) = &nv.value { if let syn::Lit::Str(s) = &l.lit { long = s.value(); } } }
                        if nv.path.is_ident("default_value") { default = Some(nv.value); }
                    }
                }
            }
        }
        let def = match default { Some(d) => quote! { Some(#d) }, None => quote! { None } };
        match last_ident(&f.ty).as_str() {
            "bool" => {
                specs.push(quote! { ::clap::Spec { long: #long, kind: ::clap::Kind::Flag, default: #def } });
                inits.push(quote! { #id: m.one(#long).map(|v| v == "true").unwrap_or(false) });
            }
            "Vec" => {
                let t = inner(&f.ty).unwrap();
                specs.push(quote! { ::clap::Spec { long: #long, kind: ::clap::Kind::Multi, default: #def } });
                inits.push(quote! { #id: m.all(#long).iter().map(|v| ::clap::convert::<#t>(#long, v)).collect() });
            }
            "Option" => {
                let t = inner(&f.ty).unwrap();
                specs.push(quote! { ::clap::Spec { long: #long, kind: ::clap::Kind::Opt, default: #def } });
                inits.push(quote! { #id: m.one(#long).map(|v| ::clap::convert::<#t>(#long, &v)) });
            }
            _ => {
                let t = &f.ty;
                specs.push(quote! { ::clap::Spec { long: #long, kind: ::clap::Kind::Req, default: #def } });
                inits.push(quote! { #id: ::clap::convert::<#t>(#long, &m.one(#long).unwrap()) });
            }
        }
    }
    quote! {
        impl ::clap::Parser for #name {
            fn parse() -> Self { let m = ::clap::run(&[#(#specs),*], #version); #name { #(#inits),* } }
        }
    }.into()
}
