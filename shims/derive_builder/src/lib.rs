//! `#[derive(Builder)] #[builder(setter(into, strip_option), default)]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;
fn inner(t: &Type) -> Option<Type> { if let Type::Path(p) = t { let s = p.path.segments.last()?; if s.ident == "Option" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(t)) = a.args.first() { return Some(t.clone()); } } } } None }
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, b, e) = (&d.ident, format_ident!("{}Builder", d.ident), format_ident!("{}BuilderError", d.ident));
    let f: Vec<Field> = match d.data { Data::Struct(s) => s.fields.into_iter().collect(), _ => panic!("struct expected") };
    let (names, types): (Vec<_>, Vec<_>) = f.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).unzip();
    let setters = f.iter().map(|f| { let (n, t) = (f.ident.clone().unwrap(), &f.ty); match inner(t) {
        Some(x) => quote! { pub fn #n<VALUE: ::core::convert::Into<#x>>(&mut self, value: VALUE) -> &mut Self { self.#n = Some(Some(value.into())); self } },
        None => quote! { pub fn #n<VALUE: ::core::convert::Into<#t>>(&mut self, value: VALUE) -> &mut Self { self.#n = Some(value.into()); self } } } });
    quote! {
        #[derive(Clone, Default)] pub struct #b { #( #names: Option<#types>, )* }
        #[derive(Debug)] pub enum #e { UninitializedField(&'static str), ValidationError(String) }
        impl From<String> for #e { fn from(s: String) -> Self { Self::ValidationError(s) } }
        impl ::std::fmt::Display for #e { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { match self { Self::UninitializedField(s) => write!(f, "`{}` must be initialized", s), Self::ValidationError(s) => write!(f, "{}", s) } } }
        impl ::std::error::Error for #e {}
        #[allow(dead_code)]
        impl #b { #( #setters )* pub fn build(&self) -> ::core::result::Result<#n, #e> { let d: #n = Default::default(); Ok(#n { #( #names: self.#names.clone().unwrap_or(d.#names), )* }) } }
    }.into()
}
