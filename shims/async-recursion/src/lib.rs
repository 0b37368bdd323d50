//! `#[async_recursion]`: an async fn becomes a fn returning a boxed future.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;
#[proc_macro_attribute]
pub fn async_recursion(_a: TokenStream, i: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(i as ItemFn);
    f.sig.asyncness = None;
    let out = match &f.sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
    // every elided reference gets the lifetime of the future
    f.sig.generics.params.insert(0, parse_quote!('life));
    let own: Vec<Lifetime> = f.sig.generics.lifetimes().map(|l| l.lifetime.clone()).filter(|l| l.ident != "life").collect();
    if !own.is_empty() { let w = f.sig.generics.make_where_clause(); for l in own { w.predicates.push(parse_quote!(#l: 'life)); } }
    for a in f.sig.inputs.iter_mut() { match a {
        FnArg::Receiver(r) => if let Some((_, l)) = &mut r.reference { if l.is_none() { *l = Some(parse_quote!('life)); } if let Type::Reference(t) = &mut *r.ty { t.lifetime = Some(parse_quote!('life)); } },
        FnArg::Typed(p) => if let Type::Reference(t) = &mut *p.ty { if t.lifetime.is_none() { t.lifetime = Some(parse_quote!('life)); } } } }
    f.sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'life>>);
    let b = f.block.clone();
    f.block = parse_quote!({ Box::pin(async move #b) });
    quote!(#f).into()
}
