//! The FRAME macros the interBTC pallets use, generating code against the `frame-support` / `frame-system` shims.
use proc_macro::TokenStream;
mod pallet;
mod nobound;
mod runtime;
use proc_macro2::TokenStream as TS;
use quote::quote;

fn out(r: syn::Result<TS>) -> TokenStream { match r { Ok(t) => t.into(), Err(e) => e.to_compile_error().into() } }

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream { out(syn::parse(item).and_then(pallet::expand)) }

#[proc_macro]
pub fn construct_runtime(item: TokenStream) -> TokenStream { out(runtime::expand(item.into())) }

fn wrap(item: TokenStream, f: impl Fn(&syn::Block) -> syn::Block) -> TokenStream {
    let item2 = item.clone();
    if let Ok(mut i) = syn::parse::<syn::ItemFn>(item) { i.block = Box::new(f(&i.block)); return quote!(#i).into() }
    match syn::parse::<syn::ImplItemFn>(item2) { Ok(mut i) => { i.block = f(&i.block); quote!(#i).into() } Err(e) => e.to_compile_error().into() }
}
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    wrap(item, |b| syn::parse_quote!({
        use ::frame_support::storage::{with_transaction, TransactionOutcome};
        with_transaction(|| {
            let r = (|| { #b })();
            if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) }
        })
    }))
}
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    wrap(item, |b| { let s = &b.stmts; syn::parse_quote!({
        if !::frame_support::storage::is_transactional() { panic!("Require transaction not called within with_transaction"); }
        #(#s)*
    }) })
}
#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream { out(syn::parse(item).and_then(pallet::alias)) }

#[proc_macro_derive(CloneNoBound)]
pub fn clone_nb(i: TokenStream) -> TokenStream { out(syn::parse(i).and_then(nobound::clone)) }
#[proc_macro_derive(PartialEqNoBound)]
pub fn eq_nb(i: TokenStream) -> TokenStream { out(syn::parse(i).and_then(nobound::partial_eq)) }
#[proc_macro_derive(EqNoBound)]
pub fn eqq_nb(i: TokenStream) -> TokenStream { out(syn::parse(i).and_then(nobound::eq)) }
#[proc_macro_derive(DebugNoBound)]
pub fn debug_nb(i: TokenStream) -> TokenStream { out(syn::parse(i).and_then(nobound::debug)) }
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn rdebug_nb(i: TokenStream) -> TokenStream { out(syn::parse(i).and_then(nobound::debug)) }
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_nb(i: TokenStream) -> TokenStream { out(syn::parse(i).and_then(nobound::default)) }
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(i: TokenStream) -> TokenStream {
    out(syn::parse::<syn::DeriveInput>(i).map(|d| { let n = d.ident; let (a, b, c) = d.generics.split_for_impl(); quote!(impl #a ::frame_support::traits::PalletError for #n #b #c { const MAX_ENCODED_SIZE: usize = 4; }) }))
}
