use proc_macro2::TokenStream as TS;
use quote::quote;
use syn::parse::{Parse, ParseStream, Parser};
use syn::{punctuated::Punctuated, *};

struct P { name: Ident, path: Path, inst: Option<Ident>, parts: Vec<(Ident, bool)>, index: u8 }
struct Part(Ident, bool);
impl Parse for Part { fn parse(i: ParseStream) -> Result<Self> {
    let id: Ident = i.parse()?; let g = if i.peek(Token![<]) { let _: AngleBracketedGenericArguments = i.parse()?; true } else { false }; Ok(Part(id, g))
} }
struct Raw { name: Ident, path: Path, inst: Option<Ident>, parts: Option<Vec<(Ident, bool)>>, index: Option<u8> }
impl Parse for Raw { fn parse(i: ParseStream) -> Result<Self> {
    let _ = i.call(Attribute::parse_outer)?;
    let name: Ident = i.parse()?; let _: Token![:] = i.parse()?;
    // path segments
    let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
    let mut inst = None; let mut parts = None;
    loop {
        if i.peek(Token![crate]) { let c: Token![crate] = i.parse()?; segs.push_value(PathSegment::from(Ident::new("crate", c.span))); }
        else if i.peek(token::Brace) { let c; braced!(c in i); parts = Some(Punctuated::<Part, Token![,]>::parse_terminated(&c)?.into_iter().map(|p| (p.0, p.1)).collect()); break }
        else if i.peek(Token![<]) { let _: Token![<] = i.parse()?; inst = Some(i.parse()?); let _: Token![>] = i.parse()?; if !i.peek(Token![::]) { break } let _: Token![::] = i.parse()?; continue }
        else { let id: Ident = i.parse()?; segs.push_value(PathSegment::from(id)); }
        if i.peek(Token![::]) { segs.push_punct(i.parse()?); } else { break }
    }
    if segs.trailing_punct() { let last = segs.pop().unwrap().into_value(); segs.push_value(last); }
    let mut index = None;
    if i.peek(Token![=]) { let _: Token![=] = i.parse()?; let l: LitInt = i.parse()?; index = Some(l.base10_parse()?); }
    Ok(Raw { name, path: Path { leading_colon: None, segments: segs }, inst, parts, index })
} }
struct Rt { name: Ident, pallets: Vec<P> }
impl Parse for Rt { fn parse(i: ParseStream) -> Result<Self> {
    let _: Option<Token![pub]> = i.parse()?;
    if i.peek(Token![enum]) { let _: Token![enum] = i.parse()?; } else { let _: Token![struct] = i.parse()?; }
    let name: Ident = i.parse()?;
    if i.peek(Token![where]) { while !i.peek(token::Brace) { let _: proc_macro2::TokenTree = i.parse()?; } }
    let c; braced!(c in i);
    let raws = Punctuated::<Raw, Token![,]>::parse_terminated(&c)?;
    let mut next = 0u8;
    let mut pallets = vec![];
    for r in raws {
        let index = r.index.unwrap_or(next); next = index + 1;
        let mk = |s: &str| Ident::new(s, r.name.span());
        let last = r.path.segments.last().unwrap().ident.to_string();
        let mut parts = r.parts.unwrap_or_else(|| { let mut v = vec![(mk("Pallet"), false), (mk("Call"), false)]; if last != "pallet_utility" { v.push((mk("Event"), true)) } else { v.push((mk("Event"), false)) } v });
        if parts.iter().any(|x| x.0 == "Call") && !parts.iter().any(|x| x.0 == "Pallet") { parts.insert(0, (mk("Pallet"), false)) }
        pallets.push(P { name: r.name, path: r.path, inst: r.inst, parts, index });
    }
    Ok(Rt { name, pallets })
} }

pub fn expand(ts: TS) -> Result<TS> {
    let rt = Rt::parse.parse2(ts)?;
    let r = &rt.name;
    let gen = |p: &P| { let path = &p.path; match &p.inst { Some(i) => quote!(<#r, #path::#i>), None => quote!(<#r>) } };
    let has = |p: &P, s: &str| p.parts.iter().find(|x| x.0 == s).map(|x| x.1);
    // events
    let ev: Vec<_> = rt.pallets.iter().filter_map(|p| has(p, "Event").map(|g| { let path = &p.path; let ge = gen(p); let t = if g { quote!(#path::Event #ge) } else { quote!(#path::Event) }; (p.name.clone(), t) })).collect();
    let (en, et): (Vec<_>, Vec<_>) = ev.into_iter().unzip();
    let calls: Vec<_> = rt.pallets.iter().filter(|p| has(p, "Call").is_some()).map(|p| { let path = &p.path; let ge = gen(p); (p.name.clone(), quote!(#path::Call #ge), p.index, quote!(#path::Pallet #ge)) }).collect();
    let cn: Vec<_> = calls.iter().map(|x| &x.0).collect();
    let ct: Vec<_> = calls.iter().map(|x| &x.1).collect();
    let ci: Vec<_> = calls.iter().map(|x| x.2).collect();
    let cs: Vec<_> = cn.iter().map(|x| x.to_string()).collect();
    let pn: Vec<_> = rt.pallets.iter().filter(|p| has(p, "Pallet").is_some()).map(|p| p.name.clone()).collect();
    let ps: Vec<_> = pn.iter().map(|x| x.to_string()).collect();
    let pi: Vec<usize> = rt.pallets.iter().filter(|p| has(p, "Pallet").is_some()).map(|p| p.index as usize).collect();
    let pt: Vec<_> = rt.pallets.iter().filter(|p| has(p, "Pallet").is_some()).map(|p| { let path = &p.path; let ge = gen(p); quote!(#path::Pallet #ge) }).collect();
    let nosys: Vec<_> = pn.iter().filter(|n| *n != "System").collect();
    // nested tuples of at most ten
    let nest = |v: Vec<TS>| -> TS { let mut groups: Vec<TS> = v.chunks(8).map(|c| quote!((#(#c,)*))).collect(); if groups.is_empty() { groups.push(quote!(())) } quote!((#(#groups,)*)) };
    let all = nest(pn.iter().map(|x| quote!(#x)).collect());
    let alln = nest(nosys.iter().map(|x| quote!(#x)).collect());
    Ok(quote! {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, ::frame_support::scale_info::TypeInfo)]
        #[scale_info(crate = ::frame_support::scale_info)]
        pub struct #r;
        #(pub type #pn = #pt;)*
        pub type AllPalletsWithSystem = #all;
        pub type AllPalletsWithoutSystem = #alln;

        #[derive(Clone, PartialEq, Eq, Debug)]
        #[allow(non_camel_case_types)]
        pub enum RuntimeEvent { #(#en(#et),)* }
        #(impl From<#et> for RuntimeEvent { fn from(e: #et) -> Self { RuntimeEvent::#en(e) } }
          impl TryInto<#et> for RuntimeEvent { type Error = (); #[allow(unreachable_patterns)] fn try_into(self) -> ::core::result::Result<#et, ()> { match self { RuntimeEvent::#en(e) => Ok(e), _ => Err(()) } } })*

        pub struct PalletInfo;
        impl ::frame_support::traits::PalletInfo for PalletInfo {
            fn index<P: 'static>() -> Option<usize> { let t = ::core::any::TypeId::of::<P>(); #(if t == ::core::any::TypeId::of::<#pn>() { return Some(#pi) })* None }
            fn name<P: 'static>() -> Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #(if t == ::core::any::TypeId::of::<#pn>() { return Some(#ps) })* None }
            fn module_name<P: 'static>() -> Option<&'static str> { Self::name::<P>() }
            fn name_hash<P: 'static>() -> Option<[u8; 16]> {
                let t = ::core::any::TypeId::of::<P>();
                #(if t == ::core::any::TypeId::of::<#pn>() { static H: ::frame_support::once::Once = ::frame_support::once::Once::new(); return Some(H.get(#ps)) })* None
            }
        }

        #[derive(Clone, PartialEq, Eq, Debug, ::frame_support::codec::Encode, ::frame_support::codec::Decode, ::frame_support::scale_info::TypeInfo)]
        #[codec(crate = ::frame_support::codec)]
        #[scale_info(crate = ::frame_support::scale_info)]
        #[allow(non_camel_case_types)]
        pub enum RuntimeCall { #(#[codec(index = #ci)] #cn(#ct),)* }
        #(impl From<#ct> for RuntimeCall { fn from(e: #ct) -> Self { RuntimeCall::#cn(e) } }
          impl ::frame_support::traits::IsSubType<#ct> for RuntimeCall { #[allow(unreachable_patterns)] fn is_sub_type(&self) -> Option<&#ct> { match self { RuntimeCall::#cn(c) => Some(c), _ => None } } })*
        impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
            fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #(RuntimeCall::#cn(c) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c),)* } }
        }
        impl ::frame_support::traits::GetCallMetadata for RuntimeCall {
            fn get_module_names() -> &'static [&'static str] { &[#(#cs),*] }
            fn get_call_names(module: &str) -> &'static [&'static str] { match module { #(#cs => <#ct as ::frame_support::traits::GetCallName>::get_call_names(),)* _ => unreachable!() } }
            fn get_call_metadata(&self) -> ::frame_support::traits::CallMetadata {
                match self { #(RuntimeCall::#cn(c) => ::frame_support::traits::CallMetadata { function_name: ::frame_support::traits::GetCallName::get_call_name(c), pallet_name: #cs },)* }
            }
        }
        impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
                match self { #(RuntimeCall::#cn(c) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin),)* }
            }
        }
        impl ::frame_support::dispatch::Dispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            type Config = RuntimeCall;
            type Info = ::frame_support::dispatch::DispatchInfo;
            type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
            fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
                if !<RuntimeOrigin as ::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
                    return Err(::frame_system::Error::<#r>::CallFiltered.into());
                }
                ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
            }
        }

        #[derive(Clone)]
        pub struct RuntimeOrigin { caller: OriginCaller, filter: ::std::rc::Rc<dyn Fn(&RuntimeCall) -> bool> }
        #[derive(Clone, PartialEq, Eq, Debug, ::frame_support::codec::Encode, ::frame_support::codec::Decode, ::frame_support::scale_info::TypeInfo, ::frame_support::codec::MaxEncodedLen)]
        #[codec(crate = ::frame_support::codec)]
        #[scale_info(crate = ::frame_support::scale_info)]
        #[allow(non_camel_case_types)]
        pub enum OriginCaller { system(::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>) }
        impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "{:?}", self.caller) } }
        impl ::frame_support::traits::CallerTrait<<#r as ::frame_system::Config>::AccountId> for OriginCaller {
            fn into_system(self) -> Option<::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x) } }
            fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x) } }
        }
        impl From<::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>> for OriginCaller { fn from(x: ::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>) -> Self { OriginCaller::system(x) } }
        impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
            type Call = RuntimeCall;
            type PalletsOrigin = OriginCaller;
            type AccountId = <#r as ::frame_system::Config>::AccountId;
            fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static) { let f = self.filter.clone(); self.filter = ::std::rc::Rc::new(move |c| f(c) && filter(c)); }
            fn reset_filter(&mut self) { self.filter = ::std::rc::Rc::new(|c| <<#r as ::frame_system::Config>::BaseCallFilter as ::frame_support::traits::Contains<RuntimeCall>>::contains(c)); }
            fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
            fn filter_call(&self, call: &Self::Call) -> bool { match self.caller { OriginCaller::system(::frame_system::RawOrigin::Root) => true, _ => (self.filter)(call) } }
            fn caller(&self) -> &OriginCaller { &self.caller }
            fn into_caller(self) -> OriginCaller { self.caller }
            fn try_with_caller<R>(self, f: impl FnOnce(OriginCaller) -> ::core::result::Result<R, OriginCaller>) -> ::core::result::Result<R, Self> { match f(self.caller.clone()) { Ok(r) => Ok(r), Err(c) => Err(RuntimeOrigin { caller: c, filter: self.filter }) } }
            fn none() -> Self { ::frame_system::RawOrigin::None.into() }
            fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
            fn signed(by: Self::AccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
            fn as_signed(self) -> Option<Self::AccountId> { match self.caller { OriginCaller::system(::frame_system::RawOrigin::Signed(x)) => Some(x), _ => None } }
            fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<Self::AccountId>> { match &self.caller { OriginCaller::system(x) => Some(x) } }
        }
        #[allow(dead_code)]
        impl RuntimeOrigin {
            pub fn none() -> Self { ::frame_system::RawOrigin::None.into() }
            pub fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
            pub fn signed(by: <#r as ::frame_system::Config>::AccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
        }
        impl From<::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>> for RuntimeOrigin {
            fn from(x: ::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>) -> Self {
                let mut o = RuntimeOrigin { caller: OriginCaller::system(x), filter: ::std::rc::Rc::new(|_| true) };
                if !matches!(o.caller, OriginCaller::system(::frame_system::RawOrigin::Root)) { ::frame_support::traits::OriginTrait::reset_filter(&mut o); }
                o
            }
        }
        impl From<OriginCaller> for RuntimeOrigin { fn from(x: OriginCaller) -> Self { match x { OriginCaller::system(x) => x.into() } } }
        impl From<Option<<#r as ::frame_system::Config>::AccountId>> for RuntimeOrigin {
            fn from(x: Option<<#r as ::frame_system::Config>::AccountId>) -> Self { ::frame_system::RawOrigin::from(x).into() }
        }
        impl From<RuntimeOrigin> for ::core::result::Result<::frame_system::RawOrigin<<#r as ::frame_system::Config>::AccountId>, RuntimeOrigin> {
            fn from(x: RuntimeOrigin) -> Self { match x.caller { OriginCaller::system(s) => Ok(s) } }
        }
        impl ::frame_support::traits::AsSystemOriginSigner<<#r as ::frame_system::Config>::AccountId> for RuntimeOrigin {
            fn as_system_origin_signer(&self) -> Option<&<#r as ::frame_system::Config>::AccountId> { match &self.caller { OriginCaller::system(::frame_system::RawOrigin::Signed(x)) => Some(x), _ => None } }
        }
    })
}
