use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, Result};

fn bind(f: &Fields, p: &str) -> (TS, Vec<syn::Ident>) {
    match f {
        Fields::Named(n) => {
            let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
            let b: Vec<_> = names.iter().map(|x| format_ident!("{}_{}", p, x.to_string().trim_start_matches("r#"))).collect();
            (quote!({ #(#names: #b),* }), b)
        }
        Fields::Unnamed(u) => { let b: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}_{}", p, i)).collect(); (quote!(( #(#b),* )), b) }
        Fields::Unit => (quote!(), vec![]),
    }
}
fn variants(d: &DeriveInput) -> Vec<(TS, String, Fields)> {
    match &d.data {
        Data::Struct(s) => vec![(quote!(Self), d.ident.to_string(), s.fields.clone())],
        Data::Enum(e) => e.variants.iter().map(|v| { let i = &v.ident; (quote!(Self::#i), i.to_string(), v.fields.clone()) }).collect(),
        _ => vec![],
    }
}
pub fn clone(d: DeriveInput) -> Result<TS> {
    let n = &d.ident; let (a, b, c) = d.generics.split_for_impl();
    let arms = variants(&d).into_iter().map(|(p, _, f)| {
        let (pat, ids) = bind(&f, "x");
        let val = match &f {
            Fields::Named(m) => { let names = m.named.iter().map(|x| x.ident.clone().unwrap()); quote!({ #(#names: ::core::clone::Clone::clone(#ids)),* }) }
            Fields::Unnamed(_) => quote!(( #(::core::clone::Clone::clone(#ids)),* )),
            Fields::Unit => quote!(),
        };
        quote!(#p #pat => #p #val)
    }).collect::<Vec<_>>();
    let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) };
    Ok(quote!(#[automatically_derived] #[allow(deprecated, unused_variables)] impl #a ::core::clone::Clone for #n #b #c { fn clone(&self) -> Self { #body } }))
}
pub fn partial_eq(d: DeriveInput) -> Result<TS> {
    let n = &d.ident; let (a, b, c) = d.generics.split_for_impl();
    let vs = variants(&d);
    let arms = vs.iter().map(|(p, _, f)| { let (l, li) = bind(f, "l"); let (r, ri) = bind(f, "r"); quote!((#p #l, #p #r) => true #(&& #li == #ri)*) }).collect::<Vec<_>>();
    let rest = if vs.len() > 1 { quote!(, _ => false) } else { quote!() };
    let body = if arms.is_empty() { quote!(true) } else { quote!(match (self, other) { #(#arms),* #rest }) };
    Ok(quote!(#[automatically_derived] #[allow(deprecated, unused_variables, unreachable_patterns)] impl #a ::core::cmp::PartialEq for #n #b #c { fn eq(&self, other: &Self) -> bool { #body } }))
}
pub fn eq(d: DeriveInput) -> Result<TS> {
    let n = &d.ident; let (a, b, c) = d.generics.split_for_impl();
    Ok(quote!(impl #a ::core::cmp::Eq for #n #b #c {}))
}
pub fn debug(d: DeriveInput) -> Result<TS> {
    let n = &d.ident; let (a, b, c) = d.generics.split_for_impl();
    let arms = variants(&d).into_iter().map(|(p, name, f)| {
        let (pat, ids) = bind(&f, "x");
        match &f {
            Fields::Named(m) => { let names = m.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()); quote!(#p #pat => fmt.debug_struct(#name) #(.field(#names, #ids))* .finish()) }
            Fields::Unnamed(_) => quote!(#p #pat => fmt.debug_tuple(#name) #(.field(#ids))* .finish()),
            Fields::Unit => quote!(#p #pat => fmt.write_str(#name)),
        }
    }).collect::<Vec<_>>();
    let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) };
    Ok(quote!(#[automatically_derived] #[allow(deprecated, unused_variables)] impl #a ::core::fmt::Debug for #n #b #c { fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { #body } }))
}
pub fn default(d: DeriveInput) -> Result<TS> {
    let n = &d.ident; let (a, b, c) = d.generics.split_for_impl();
    let mk = |p: TS, f: &Fields| match f {
        Fields::Named(m) => { let names = m.named.iter().map(|x| x.ident.clone().unwrap()); quote!(#p { #(#names: ::core::default::Default::default()),* }) }
        Fields::Unnamed(u) => { let v = u.unnamed.iter().map(|_| quote!(::core::default::Default::default())); quote!(#p ( #(#v),* )) }
        Fields::Unit => p,
    };
    let body = match &d.data {
        Data::Struct(s) => mk(quote!(Self), &s.fields),
        Data::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).ok_or_else(|| syn::Error::new(n.span(), "no #[default]"))?;
            let i = &v.ident; mk(quote!(Self::#i), &v.fields)
        }
        _ => quote!(),
    };
    Ok(quote!(#[automatically_derived] impl #a ::core::default::Default for #n #b #c { fn default() -> Self { #body } }))
}
