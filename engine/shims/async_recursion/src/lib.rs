//! Stands in for the async-recursion crate, which is not available offline: the same rewriting
//! of an async function into one returning a boxed future, sendable, living as long as the
//! references it is given.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, FnArg, GenericParam, ItemFn, Lifetime, ReturnType, Type};

#[proc_macro_attribute]
pub fn async_recursion(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    f.sig.asyncness.take().expect("an async function");
    let mut life = vec![];
    for a in f.sig.inputs.iter_mut() {
        let slot = match a {
            FnArg::Receiver(r) => {
                let slot = r.reference.as_mut().map(|x| &mut x.1);
                if let Some(s) = slot {
                    if s.is_none() {
                        let l: Lifetime = Lifetime::new(&format!("'life{}", life.len()), proc_macro2::Span::call_site());
                        *s = Some(l.clone());
                        if let Type::Reference(t) = &mut *r.ty {
                            t.lifetime = Some(l.clone());
                        }
                        life.push(l);
                    }
                }
                continue;
            }
            FnArg::Typed(t) => match &mut *t.ty {
                Type::Reference(x) => &mut x.lifetime,
                _ => continue,
            },
        };
        if slot.is_none() {
            let l = Lifetime::new(&format!("'life{}", life.len()), proc_macro2::Span::call_site());
            *slot = Some(l.clone());
            life.push(l);
        }
    }
    let mut bounds: Vec<syn::WherePredicate> = vec![];
    for p in &f.sig.generics.params {
        match p {
            GenericParam::Type(t) => {
                let i = &t.ident;
                bounds.push(parse_quote!(#i: 'async_recursion));
            }
            GenericParam::Lifetime(l) => {
                let l = &l.lifetime;
                bounds.push(parse_quote!(#l: 'async_recursion));
            }
            _ => {}
        }
    }
    for l in &life {
        bounds.push(parse_quote!(#l: 'async_recursion));
    }
    for (i, l) in life.iter().enumerate() {
        f.sig.generics.params.insert(i, parse_quote!(#l));
    }
    f.sig.generics.params.insert(0, parse_quote!('async_recursion));
    f.sig.generics.make_where_clause().predicates.extend(bounds);
    let out: Type = match &f.sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    f.sig.output = parse_quote! {
        -> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + 'async_recursion + ::core::marker::Send>>
    };
    let body = &f.block;
    f.block = Box::new(parse_quote!({ Box::pin(async move #body) }));
    quote!(#f).into()
}
