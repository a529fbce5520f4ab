use proc_macro2::{Span, TokenStream as TS};
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::spanned::Spanned;
use syn::*;

fn pal(a: &Attribute) -> Option<String> {
    let s = &a.path().segments;
    if s.len() == 2 && s[0].ident == "pallet" { Some(s[1].ident.to_string()) } else { None }
}
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
    let mut out = vec![];
    attrs.retain(|a| match pal(a) { Some(n) => { out.push((n, a.clone())); false } None => true });
    out
}
struct Getter { vis: Visibility, name: Ident }
impl Parse for Getter { fn parse(i: ParseStream) -> Result<Self> { let vis = i.parse()?; let _: Token![fn] = i.parse()?; Ok(Getter { vis, name: i.parse()? }) } }

struct Storage { ty: ItemType, getter: Option<Ident>, prefix: Option<String> }
struct Method { f: ImplItemFn, weight: Option<Expr>, index: Option<u8>, args: Vec<(Ident, Type, bool)> }

/// generic parameter idents and "use" form of a generics list
fn gens(g: &Generics) -> TS { let (_, t, _) = g.split_for_impl(); quote!(#t) }
fn strip_defaults(g: &Generics) -> Generics {
    let mut g = g.clone();
    for p in g.params.iter_mut() { if let GenericParam::Type(t) = p { t.default = None; t.eq_token = None } }
    g
}

pub fn expand(mut m: ItemMod) -> Result<TS> {
    let (_, items) = m.content.take().ok_or_else(|| Error::new(m.span(), "pallet module without body"))?;
    let mut out: Vec<TS> = vec![];
    let mut instance = false;
    // is the pallet instantiable?
    for i in &items { if let Item::Trait(t) = i { if t.attrs.iter().any(|a| pal(a).as_deref() == Some("config")) { instance = !t.generics.params.is_empty() } } }
    let tg: TS = if instance { quote!(T, I) } else { quote!(T) };
    let ib: TS = if instance { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
    let ibd: TS = if instance { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) };
    let cfg: TS = if instance { quote!(Config<I>) } else { quote!(Config) };
    let mut wh: Option<WhereClause> = None;
    let mut storages: Vec<Storage> = vec![];
    let mut methods: Vec<Method> = vec![];
    let mut has_hooks = false; let mut has_event = false; let mut has_call = false; let mut has_error = false;
    let mut deposit: Option<(Visibility, Ident)> = None;
    let mut version: Option<TS> = None;
    let mut genesis_build: Option<(Generics, Type)> = None;

    for item in items {
        match item {
            Item::Trait(mut t) if t.attrs.iter().any(|a| pal(a).as_deref() == Some("config")) => {
                take(&mut t.attrs);
                for i in t.items.iter_mut() { if let TraitItem::Type(x) = i { take(&mut x.attrs); } else if let TraitItem::Const(x) = i { take(&mut x.attrs); } }
                out.push(quote!(#t));
            }
            Item::Struct(mut s) if s.attrs.iter().any(|a| pal(a).as_deref() == Some("pallet")) => {
                for (n, a) in take(&mut s.attrs) { if n == "storage_version" { if let Meta::List(l) = a.meta { let t = l.tokens; version = Some(quote!(#t)) } } }
                let vis = &s.vis;
                let attrs: Vec<_> = s.attrs.iter().filter(|a| a.path().is_ident("doc")).collect();
                let gp = if instance { quote!(T, I = ()) } else { quote!(T) };
                let gi = quote!(#tg);
                out.push(quote! {
                    #(#attrs)* #vis struct Pallet<#gp>(::core::marker::PhantomData<(#gi)>);
                    impl<#gi> ::core::clone::Clone for Pallet<#gi> { fn clone(&self) -> Self { Pallet(::core::marker::PhantomData) } }
                    impl<#gi> ::core::cmp::PartialEq for Pallet<#gi> { fn eq(&self, _: &Self) -> bool { true } }
                    impl<#gi> ::core::cmp::Eq for Pallet<#gi> {}
                    impl<#gi> ::core::fmt::Debug for Pallet<#gi> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("Pallet") } }
                });
            }
            Item::Type(mut t) if t.attrs.iter().any(|a| pal(a).as_deref() == Some("storage")) => {
                let mut getter = None; let mut prefix = None;
                for (n, a) in take(&mut t.attrs) {
                    if n == "getter" { if let Meta::List(l) = &a.meta { let g: Getter = parse2(l.tokens.clone())?; let _ = &g.vis; getter = Some(g.name) } }
                    if n == "storage_prefix" { if let Meta::NameValue(v) = &a.meta { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &v.value { prefix = Some(s.value()) } } }
                }
                if t.generics.params.is_empty() { return Err(Error::new(t.span(), "storage without generics")) }
                storages.push(Storage { ty: t, getter, prefix });
            }
            Item::Fn(mut f) if f.attrs.iter().any(|a| pal(a).as_deref() == Some("type_value")) => {
                take(&mut f.attrs);
                let vis = &f.vis; let name = &f.sig.ident; let g = &f.sig.generics;
                let ret = match &f.sig.output { ReturnType::Type(_, t) => quote!(#t), _ => quote!(()) };
                let body = &f.block; let attrs = &f.attrs;
                let (a, b, c) = g.split_for_impl();
                let params: Vec<_> = g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect();
                let decl = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
                out.push(quote! {
                    #(#attrs)* #vis struct #name #decl (::core::marker::PhantomData<((), #(#params),*)>);
                    impl #a ::frame_support::traits::Get<#ret> for #name #b #c { fn get() -> #ret #body }
                });
            }
            Item::Enum(mut e) if e.attrs.iter().any(|a| pal(a).as_deref() == Some("event")) => {
                has_event = true;
                for (n, a) in take(&mut e.attrs) { if n == "generate_deposit" { if let Meta::List(l) = &a.meta { let g: Getter = parse2(l.tokens.clone())?; deposit = Some((g.vis, g.name)) } } }
                for v in e.variants.iter_mut() { v.attrs.retain(|a| a.path().is_ident("doc")); for f in v.fields.iter_mut() { f.attrs.retain(|a| a.path().is_ident("doc")); } }
                e.attrs.retain(|a| a.path().is_ident("doc") || a.path().is_ident("cfg") || a.path().is_ident("allow"));
                let generic = !e.generics.params.is_empty();
                if generic {
                    let ps: Vec<_> = e.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect();
                    e.variants.push(parse_quote!(#[doc(hidden)] #[allow(non_camel_case_types)] __Ignore(::core::marker::PhantomData<(#(#ps),*)>, ::frame_support::Never)));
                }
                out.push(quote! {
                    #[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::DebugNoBound)]
                    #e
                });
                let g = strip_defaults(&e.generics); let (a, b, c) = g.split_for_impl();
                out.push(quote!(impl #a From<Event #b> for () #c { fn from(_: Event #b) {} }));
                if let Some((vis, name)) = &deposit {
                    let (evt, conv) = if generic { (quote!(Event<#tg>), quote!(<<T as #cfg>::RuntimeEvent as From<Event<#tg>>>::from(event))) } else { (quote!(Event), quote!(<<T as #cfg>::RuntimeEvent as From<Event>>::from(event))) };
                    out.push(quote! {
                        impl<#ib> Pallet<#tg> {
                            #vis fn #name(event: #evt) {
                                let event = #conv;
                                let event = <<T as #cfg>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
                                <::frame_system::Pallet<T>>::deposit_event(event)
                            }
                        }
                    });
                }
            }
            Item::Enum(mut e) if e.attrs.iter().any(|a| pal(a).as_deref() == Some("error")) => {
                has_error = true;
                take(&mut e.attrs);
                e.attrs.retain(|a| !a.path().is_ident("derive"));
                let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
                let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
                let pats: Vec<TS> = e.variants.iter().map(|v| { let n = &v.ident; match v.fields { Fields::Unit => quote!(Error::#n), Fields::Unnamed(_) => quote!(Error::#n(..)), Fields::Named(_) => quote!(Error::#n{..}) } }).collect();
                let idx: Vec<_> = (0..names.len()).map(|i| i as u8).collect();
                let vs: Vec<_> = e.variants.iter().cloned().collect(); let vis = &e.vis;
                let ed = if instance { quote!(T, I = ()) } else { quote!(T) };
                let attrs = &e.attrs;
                out.push(quote! {
                    #(#attrs)* #vis enum Error<#ed> { #(#vs,)* #[doc(hidden)] __Ignore(::core::marker::PhantomData<(#tg)>, ::frame_support::Never) }
                    impl<#tg> ::core::fmt::Debug for Error<#tg> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
                    impl<#tg> Error<#tg> {
                        #[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { #(#pats => #strs,)* Error::__Ignore(..) => unreachable!() } }
                        #[doc(hidden)] pub fn variant_index(&self) -> u8 { match self { #(#pats => #idx,)* Error::__Ignore(..) => unreachable!() } }
                    }
                    impl<#tg> From<Error<#tg>> for &'static str { fn from(e: Error<#tg>) -> &'static str { e.as_str() } }
                    impl<#ib> From<Error<#tg>> for ::frame_support::dispatch::DispatchError {
                        fn from(e: Error<#tg>) -> Self {
                            let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet<#tg>>().expect("Every active module has an index in the runtime; qed") as u8;
                            ::frame_support::dispatch::DispatchError::Module(::frame_support::sp_runtime::ModuleError { index, error: [e.variant_index(), 0, 0, 0], message: Some(e.as_str()) })
                        }
                    }
                });
            }
            Item::Impl(mut im) if im.attrs.iter().any(|a| pal(a).as_deref() == Some("call")) => {
                has_call = true;
                take(&mut im.attrs);
                wh = im.generics.where_clause.clone();
                for it in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = it {
                        let mut weight = None; let mut index = None;
                        for (n, a) in take(&mut f.attrs) {
                            match (n.as_str(), &a.meta) {
                                ("weight", Meta::List(l)) => { let t = l.tokens.clone(); weight = Some(parse2::<Expr>(t.clone()).or_else(|_| parse2::<Expr>(quote!((#t))))?) }
                                ("call_index", Meta::List(l)) => { let x: LitInt = parse2(l.tokens.clone())?; index = Some(x.base10_parse()?) }
                                _ => {}
                            }
                        }
                        let mut args = vec![];
                        for (k, a) in f.sig.inputs.iter_mut().enumerate() {
                            if let FnArg::Typed(p) = a {
                                let compact = take(&mut p.attrs).iter().any(|x| x.0 == "compact");
                                if k == 0 { continue }
                                let id = match &*p.pat { Pat::Ident(i) => i.ident.clone(), o => return Err(Error::new(o.span(), "unsupported argument pattern")) };
                                args.push((id, (*p.ty).clone(), compact));
                            }
                        }
                        let ret = &f.sig.output;
                        let b = &f.block;
                        let rt = match ret { ReturnType::Type(_, t) => quote!(#t), _ => quote!(()) };
                        let _ = rt;
                        f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| #b) });
                        methods.push(Method { f: f.clone(), weight, index, args });
                    }
                }
                out.push(quote!(#im));
            }
            Item::Impl(mut im) if im.attrs.iter().any(|a| pal(a).as_deref() == Some("hooks")) => { has_hooks = true; take(&mut im.attrs); out.push(quote!(#im)); }
            Item::Impl(mut im) if im.attrs.iter().any(|a| pal(a).as_deref() == Some("genesis_build")) => {
                take(&mut im.attrs);
                genesis_build = Some((im.generics.clone(), (*im.self_ty).clone()));
                out.push(quote!(#im));
            }
            Item::Impl(mut im) => { take(&mut im.attrs); for i in im.items.iter_mut() { if let ImplItem::Fn(f) = i { take(&mut f.attrs); } } out.push(quote!(#im)); }
            Item::Struct(mut s) if s.attrs.iter().any(|a| pal(a).as_deref() == Some("genesis_config")) => {
                take(&mut s.attrs);
                s.attrs.retain(|a| !a.path().is_ident("serde") && !a.path().is_ident("cfg_attr"));
                for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")) }
                out.push(quote!(#s));
            }
            Item::Enum(mut s) if s.attrs.iter().any(|a| pal(a).is_some()) => { take(&mut s.attrs); out.push(quote!(#s)); }
            Item::Struct(mut s) => { take(&mut s.attrs); out.push(quote!(#s)); }
            Item::Type(mut s) => { take(&mut s.attrs); out.push(quote!(#s)); }
            other => out.push(quote!(#other)),
        }
    }

    // ---- storage
    for s in &storages { out.push(storage(s, instance, &ib, &tg)?); }

    // ---- default hooks
    if !has_hooks { out.push(quote!(impl<#ib> ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {})); }
    out.push(quote! {
        impl<#ib> ::frame_support::traits::OnInitialize<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn on_initialize(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) -> ::frame_support::weights::Weight { <Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_initialize(n) }
        }
        impl<#ib> ::frame_support::traits::OnFinalize<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn on_finalize(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) { <Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_finalize(n) }
        }
        impl<#ib> ::frame_support::traits::OnIdle<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn on_idle(n: ::frame_system::pallet_prelude::BlockNumberFor<T>, w: ::frame_support::weights::Weight) -> ::frame_support::weights::Weight { <Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_idle(n, w) }
        }
        impl<#ib> ::frame_support::traits::OnRuntimeUpgrade for Pallet<#tg> {
            fn on_runtime_upgrade() -> ::frame_support::weights::Weight { <Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_runtime_upgrade() }
        }
        impl<#ib> ::frame_support::traits::PalletInfoAccess for Pallet<#tg> {
            fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("Pallet is part of the runtime") }
            fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("Pallet is part of the runtime") }
            fn name_hash() -> [u8; 16] { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name_hash::<Self>().unwrap_or_else(|| ::frame_support::Twox128::hash(Self::name().as_bytes())) }
        }
    });
    let ver = version.unwrap_or(quote!(::frame_support::traits::StorageVersion::new(0)));
    out.push(quote! {
        impl<#ib> ::frame_support::traits::GetStorageVersion for Pallet<#tg> {
            fn current_storage_version() -> ::frame_support::traits::StorageVersion { #ver }
            fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
        }
    });
    let _ = (has_event, has_error);
    if let Some((g, ty)) = genesis_build {
        let (a, _b, c) = g.split_for_impl();
        out.push(quote! {
            impl #a ::frame_support::sp_runtime::BuildStorage for #ty #c {
                fn assimilate_storage(&self, storage: &mut ::frame_support::sp_core::storage::Storage) -> ::core::result::Result<(), String> {
                    ::frame_support::sp_io::assimilate(storage, || ::frame_support::traits::BuildGenesisConfig::build(self));
                    Ok(())
                }
            }
        });
    }
    out.push(calls(&methods, has_call, &ib, &ibd, &tg, &wh)?);
    if instance { out.push(quote!(#[doc(hidden)] #[allow(unused_imports)] pub use ::frame_support::instances::*;)); }
    let (vis, ident, attrs) = (&m.vis, &m.ident, &m.attrs);
    Ok(quote!(#(#attrs)* #vis mod #ident { #(#out)* }))
}

fn strip(i: &Ident) -> Ident { let s = i.to_string(); let t = s.trim_start_matches('_'); if t.is_empty() { i.clone() } else { Ident::new(t, i.span()) } }
fn calls(ms: &[Method], _has: bool, ib: &TS, ibd: &TS, tg: &TS, wh: &Option<WhereClause>) -> Result<TS> {
    let names: Vec<_> = ms.iter().map(|m| m.f.sig.ident.clone()).collect();
    let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
    let mut next = 0u8;
    let idx: Vec<u8> = ms.iter().map(|m| { let i = m.index.unwrap_or(next); next = i.wrapping_add(1); i }).collect();
    let variants: Vec<TS> = ms.iter().zip(&idx).map(|(m, i)| {
        let n = &m.f.sig.ident;
        let fields = m.args.iter().map(|(a, t, c)| { let at = if *c { quote!(#[codec(compact)]) } else { quote!() }; let a = strip(a); quote!(#at #a: #t) });
        quote!(#[codec(index = #i)] #n { #(#fields),* })
    }).collect();
    let news: Vec<TS> = ms.iter().map(|m| {
        let n = &m.f.sig.ident; let f = format_ident!("new_call_variant_{}", n);
        let a: Vec<_> = m.args.iter().map(|x| strip(&x.0)).collect(); let t = m.args.iter().map(|x| &x.1);
        quote!(#[doc(hidden)] pub fn #f(#(#a: #t),*) -> Self { Call::#n { #(#a),* } })
    }).collect();
    let dispatch: Vec<TS> = ms.iter().map(|m| {
        let n = &m.f.sig.ident; let a: Vec<_> = m.args.iter().map(|x| strip(&x.0)).collect();
        quote!(Call::#n { #(#a),* } => <Pallet<#tg>>::#n(origin, #(#a),*).map(Into::into).map_err(Into::into))
    }).collect();
    let infos: Vec<TS> = ms.iter().map(|m| {
        let n = &m.f.sig.ident; let a: Vec<_> = m.args.iter().map(|x| &x.0).collect(); let t: Vec<_> = m.args.iter().map(|x| &x.1).collect();
        let w = m.weight.as_ref().map(|w| quote!(#w)).unwrap_or(quote!(0));
        let st: Vec<_> = m.args.iter().map(|x| strip(&x.0)).collect();
        quote!(Call::#n { #(#st: #a),* } => {
            let __w = #w;
            ::frame_support::dispatch::info_from::<_, (#(&#t,)*)>(&__w, || (#(#a,)*))
        })
    }).collect();
    let trait_use = quote!(::frame_support::traits);
    Ok(quote! {
        #[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::DebugNoBound, ::frame_support::codec::Encode, ::frame_support::codec::Decode, ::frame_support::scale_info::TypeInfo)]
        #[codec(encode_bound())] #[codec(decode_bound())] #[codec(crate = ::frame_support::codec)]
        #[scale_info(skip_type_params(#tg), capture_docs = "never", crate = ::frame_support::scale_info)]
        #[allow(non_camel_case_types)]
        pub enum Call<#ibd> #wh {
            #[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#tg)>, ::frame_support::Never),
            #(#variants,)*
        }
        #[allow(dead_code)]
        impl<#ib> Call<#tg> #wh { #(#news)* }
        impl<#ib> #trait_use::UnfilteredDispatchable for Call<#tg> #wh {
            type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
            #[allow(unused_variables)]
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
                match self { #(#dispatch,)* Call::__Ignore(..) => unreachable!() }
            }
        }
        impl<#ib> ::frame_support::dispatch::GetDispatchInfo for Call<#tg> #wh {
            #[allow(unused_variables)]
            fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
                match self { #(#infos,)* Call::__Ignore(..) => unreachable!() }
            }
        }
        impl<#ib> #trait_use::GetCallName for Call<#tg> #wh {
            fn get_call_name(&self) -> &'static str { match self { #(Call::#names { .. } => #strs,)* Call::__Ignore(..) => unreachable!() } }
            fn get_call_names() -> &'static [&'static str] { &[#(#strs),*] }
        }
        impl<#ib> #trait_use::Callable<T> for Pallet<#tg> #wh { type RuntimeCall = Call<#tg>; }
    })
}

/// Positional or named generics of a storage type, in the order (hashers/keys..., value, query kind, on empty)
fn storage(s: &Storage, instance: bool, ib: &TS, tg: &TS) -> Result<TS> {
    let _ = (ib, tg);
    let t = &s.ty;
    let name = &t.ident;
    let vis = &t.vis;
    let attrs = &t.attrs;
    let g = &t.generics;
    let mut gi = strip_defaults(g);
    for p in gi.params.iter_mut() { if let GenericParam::Type(x) = p { if x.bounds.is_empty() {
        if x.ident == "T" { if instance { x.bounds.push(parse_quote!(Config<I>)) } else { x.bounds.push(parse_quote!(Config)) } } else { x.bounds.push(parse_quote!('static)) }
    } } }
    let (a, b, c) = gi.split_for_impl();
    let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
    let path = match &*t.ty { Type::Path(p) => p.path.clone(), _ => return Err(Error::new(t.span(), "storage type")) };
    let seg = path.segments.last().unwrap();
    let kind = seg.ident.to_string();
    let mut args: Vec<Option<Type>> = vec![];
    if let PathArguments::AngleBracketed(ab) = &seg.arguments {
        let named = ab.args.iter().any(|x| matches!(x, GenericArgument::AssocType(_)));
        if named {
            let order: &[&str] = match kind.as_str() { "StorageValue" => &["Value", "QueryKind", "OnEmpty"], "StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"], "StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"], _ => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"] };
            for o in order { args.push(ab.args.iter().find_map(|x| if let GenericArgument::AssocType(at) = x { if at.ident == o { Some(at.ty.clone()) } else { None } } else { None })); }
        } else {
            for x in ab.args.iter().skip(1) { if let GenericArgument::Type(t) = x { args.push(Some(t.clone())) } }
        }
    }
    let n = match kind.as_str() { "StorageValue" => 1, "StorageMap" | "CountedStorageMap" => 3, "StorageDoubleMap" => 5, "StorageNMap" => 2, _ => return Err(Error::new(t.span(), format!("unknown storage {}", kind))) };
    let fixed: Vec<Type> = args.iter().take(n).map(|x| x.clone().expect("storage argument")).collect();
    let value = fixed.last().unwrap().clone();
    let qk: Type = args.get(n).cloned().flatten().unwrap_or(parse_quote!(::frame_support::storage::types::OptionQuery));
    let qk: Type = { // ResultQuery<Error<T>::X> takes a path to a variant: not supported, none of the pallets uses it
        qk };
    let oe: Type = args.get(n + 1).cloned().flatten().unwrap_or(parse_quote!(::frame_support::traits::GetDefault));
    let kid = Ident::new(&kind, Span::call_site());
    let sname = s.prefix.clone().unwrap_or(name.to_string());
    let pallet = if instance { quote!(Pallet<T, I>) } else { quote!(Pallet<T>) };
    let pg: Vec<_> = g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect();
    let getter = s.getter.as_ref().map(|gt| {
        let last = if let Type::Path(p) = &qk { p.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default() } else { String::new() };
        let q = match last.as_str() { "ValueQuery" => quote!(#value), "OptionQuery" => quote!(::core::option::Option<#value>), _ => quote!(<#qk as ::frame_support::storage::types::QueryKindTrait<#value, #oe>>::Query) };
        let (args_, call) = match kind.as_str() {
            "StorageValue" => (quote!(), quote!()),
            "StorageMap" | "CountedStorageMap" => { let k = &fixed[1]; (quote!(k: impl ::frame_support::codec::EncodeLike<#k>), quote!(k)) }
            "StorageDoubleMap" => { let (k1, k2) = (&fixed[1], &fixed[3]); (quote!(k1: impl ::frame_support::codec::EncodeLike<#k1>, k2: impl ::frame_support::codec::EncodeLike<#k2>), quote!(k1, k2)) }
            _ => { let k = &fixed[0]; (quote!(k: <#k as ::frame_support::storage::types::KeyGenerator>::Arg), quote!(k)) }
        };
        let docs: Vec<_> = attrs.iter().filter(|x| x.path().is_ident("doc")).collect();
        let (ia, _ib, ic) = gi.split_for_impl();
        quote!(impl #ia #pallet #ic { #(#docs)* pub fn #gt(#args_) -> #q { <#name #b>::get(#call) } })
    });
    let gb = gens(&gi);
    let (vis2, gd) = (vis, g);
    Ok(quote! {
        #[doc(hidden)] #vis2 struct #prefix<#(#pg),*>(::core::marker::PhantomData<(#(#pg,)*)>);
        impl #a ::frame_support::traits::StorageInstance for #prefix #b #c {
            const STORAGE_PREFIX: &'static str = #sname;
            fn pallet_prefix() -> &'static str { <#pallet as ::frame_support::traits::PalletInfoAccess>::name() }
            fn prefix_hash() -> [u8; 32] {
                static H: ::frame_support::once::Once = ::frame_support::once::Once::new();
                let mut r = [0u8; 32];
                r[..16].copy_from_slice(&<#pallet as ::frame_support::traits::PalletInfoAccess>::name_hash());
                r[16..].copy_from_slice(&H.get(#sname));
                r
            }
        }
        #(#attrs)* #[allow(type_alias_bounds)]
        #vis type #name #gd = ::frame_support::storage::types::#kid<#prefix #gb, #(#fixed,)* #qk, #oe>;
        #getter
    })
}

/// `#[storage_alias] type X<T> = StorageMap<Prefix, Hasher, K, V>;`
pub fn alias(t: ItemType) -> Result<TS> {
    let name = &t.ident; let vis = &t.vis; let attrs = &t.attrs; let g = &t.generics;
    let gi = strip_defaults(g); let (a, b, c) = gi.split_for_impl();
    let prefix = format_ident!("_StorageAliasPrefix{}", name);
    let path = match &*t.ty { Type::Path(p) => p.path.clone(), _ => return Err(Error::new(t.span(), "storage type")) };
    let seg = path.segments.last().unwrap(); let kid = &seg.ident;
    let mut args: Vec<Type> = vec![];
    if let PathArguments::AngleBracketed(ab) = &seg.arguments { for x in &ab.args { if let GenericArgument::Type(t) = x { args.push(t.clone()) } } }
    let first = args.remove(0); let fs = first.clone();
    let sname = name.to_string();
    let pg: Vec<_> = g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect();
    let is_type = matches!(&first, Type::Path(p) if p.path.segments.iter().any(|s| !s.arguments.is_empty()));
    let pp = if is_type { quote!(<#fs as ::frame_support::traits::PalletInfoAccess>::name()) } else { let s = quote!(#first).to_string(); quote!(#s) };
    Ok(quote! {
        #[doc(hidden)] #vis struct #prefix<#(#pg),*>(::core::marker::PhantomData<(#(#pg,)*)>);
        impl #a ::frame_support::traits::StorageInstance for #prefix #b #c {
            const STORAGE_PREFIX: &'static str = #sname;
            fn pallet_prefix() -> &'static str { #pp }
        }
        #(#attrs)* #[allow(type_alias_bounds)] #vis type #name #g = ::frame_support::storage::types::#kid<#prefix #b, #(#args),*>;
    })
}
