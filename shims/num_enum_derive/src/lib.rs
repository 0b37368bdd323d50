use proc_macro::TokenStream;
use quote::quote;
use syn::*;
fn parts(i: TokenStream) -> (Ident, Ident, Vec<Ident>) { let d: DeriveInput = parse(i).unwrap(); let mut r = None; for a in &d.attrs { if a.path().is_ident("repr") { r = Some(a.parse_args::<Ident>().unwrap()); } }
    let v = match d.data { Data::Enum(e) => e.variants.into_iter().map(|v| v.ident).collect(), _ => panic!() }; (d.ident, r.unwrap(), v) }
#[proc_macro_derive(IntoPrimitive)] pub fn into(i: TokenStream) -> TokenStream { let (n, r, _) = parts(i); quote!(impl From<#n> for #r { fn from(v: #n) -> #r { v as #r } }).into() }
#[proc_macro_derive(TryFromPrimitive)] pub fn tryf(i: TokenStream) -> TokenStream { let (n, r, v) = parts(i); quote!(impl TryFrom<#r> for #n { type Error = ::num_enum::TryFromPrimitiveError<#n>; fn try_from(x: #r) -> Result<Self, Self::Error> { #( if x == #n::#v as #r { return Ok(#n::#v); } )* Err(::num_enum::TryFromPrimitiveError { number: x as u64, _t: ::std::marker::PhantomData }) } }).into() }
