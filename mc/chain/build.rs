//! Takes the runtimes' own source text from /repo and writes the part of it that can be compiled on the stand-ins: everything
//! except `use` lines (the host module provides the names), runtime APIs, executive and opaque keys, the configurations of pallets
//! that have no stand-in, and the weights.
use quote::{quote, ToTokens};
use proc_macro2::{TokenStream, TokenTree};
use syn::*;

/// pallets (first path segment) whose configuration is taken from the runtime
const REAL: &[&str] = &["frame_system", "multi_transaction_payment", "pallet_authorship", "collator_selection", "pallet_aura", "pallet_timestamp", "pallet_scheduler", "pallet_preimage",
    "pallet_utility", "pallet_transaction_payment", "pallet_proxy", "pallet_session", "democracy", "btc_relay", "orml_tokens", "supply", "annuity", "reward", "farming", "security", "currency", "staking", "escrow", "vault_registry",
    "oracle", "fee", "issue", "redeem", "replace", "nomination", "clients_info", "tx_pause", "loans", "dex_general", "dex_stable", "dex_swap_router"];
const NO_EVENTS: &[&str] = &[];
/// associated types about weights and block limits
const UNIT: &[&str] = &["WeightInfo", "AccountData", "SystemWeightInfo", "OnSetCode", "BlockWeights", "BlockLength", "Version", "GeneralWeightInfo", "StableWeightInfo", "DexWeightInfo", "SessionHandler", "Keys", "FeeMultiplierUpdate"];
/// items that are left out
const DROP: &[&str] = &["native_version", "VERSION", "Version", "Executive", "SignedExtra", "UncheckedExtrinsic", "GetTransactionAction_", "CheckedExtrinsic", "SignedBlock", "BlockId", "Block", "Header", "CheckInherents", "SlowAdjustingFeeUpdate",
    "TransactionConverter", "RuntimeBlockWeights", "RuntimeBlockLength", "MaximumSchedulerWeight", "MaxProposalWeight", "EventRecord", "OracleName",
    "TargetBlockFullness", "AdjustmentVariable", "MinimumMultiplier", "MaximumMultiplier",
    // the parts of the XCM configuration that only name types of the executor
    "LocationToAccountId", "XcmOriginToTransactDispatchOrigin", "LocalOriginToLocation", "XcmRouter", "LocalAssetTransactor", "XcmConfig", "RelayChainOrigin", "Ancestry", "DefaultSchedule", "FindAuthorTruncated", "PrecompilesValue", "Precompiles", "AccountConverter"];
const DROP_TRAIT: &[&str] = &["fp_rpc", "cumulus_pallet_parachain_system"];

fn cfg_drop(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { if !a.path().is_ident("cfg") { return false }
        let s = a.meta.to_token_stream().to_string();
        let neg = s.contains("not");
        let off = s.contains("runtime-benchmarks") || s.contains("try-runtime") || s.contains("vesting-any") || s.contains("(test)") || s.contains("test)");
        off && !neg })
}
fn clean(attrs: &mut Vec<Attribute>) { attrs.retain(|a| !a.path().is_ident("cfg") && !a.path().is_ident("doc") && !a.path().is_ident("sp_version")) }
fn split(ts: TokenStream) -> Vec<TokenStream> {
    let (mut out, mut cur) = (vec![], TokenStream::new());
    for t in ts { let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';'); cur.extend([t]); if end { out.push(std::mem::take(&mut cur)) } }
    if !cur.is_empty() { out.push(cur) }
    out
}
/// the name an entry of parameter_types! declares: the identifier before the first single ':'
fn declared(ts: &TokenStream) -> String {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() { if let (TokenTree::Ident(n), Some(TokenTree::Punct(p))) = (&v[i], v.get(i + 1)) { if p.as_char() == ':' { return n.to_string() } } }
    String::new()
}
fn construct(ts: TokenStream) -> TokenStream {
    // entries separated by commas inside the braces of the enum
    let body = ts.into_iter().find_map(|t| match t { TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => Some(g.stream()), _ => None }).expect("runtime body");
    let (mut entries, mut cur) = (vec![], TokenStream::new());
    for t in body { if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') { entries.push(std::mem::take(&mut cur)) } else { cur.extend([t]) } }
    if !cur.is_empty() { entries.push(cur) }
    let mut out = TokenStream::new();
    for e in entries {
        let v: Vec<TokenTree> = e.into_iter().collect();
        let brace = v.iter().position(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace)).expect("pallet parts");
        let name = v[2].to_string();
        let parts = match &v[brace] { TokenTree::Group(g) => g.stream().to_string(), _ => unreachable!() };
        let real = REAL.contains(&name.as_str()) && !NO_EVENTS.contains(&name.as_str());
        let (head, tail): (TokenStream, TokenStream) = (v[..brace].iter().cloned().collect(), v[brace + 1..].iter().cloned().collect());
        let call = if parts.split(',').any(|p| p.trim() == "Call") { quote!(Call,) } else { quote!() };
        let event = if !real { quote!() } else if parts.split(',').any(|p| p.trim() == "Event") { quote!(Event,) } else if parts.contains("Event") { quote!(Event<T>,) } else { quote!() };
        out.extend(quote!(#head { Pallet, #call #event } #tail,));
    }
    quote!(construct_runtime! { pub enum Runtime { #out } })
}
/// the single names a `use` line brings in, each with its whole path
fn leaves(pre: &str, t: &UseTree, out: &mut Vec<String>) {
    match t {
        UseTree::Path(p) => leaves(&format!("{pre}{}::", p.ident), &p.tree, out),
        UseTree::Name(n) if n.ident == "self" => out.push(pre.trim_end_matches("::").into()),
        UseTree::Name(n) => out.push(format!("{pre}{}", n.ident)),
        UseTree::Rename(n) if n.ident == "self" => out.push(format!("{} as {}", pre.trim_end_matches("::"), n.rename)),
        UseTree::Rename(n) => out.push(format!("{pre}{} as {}", n.ident, n.rename)),
        UseTree::Glob(_) => out.push(format!("{pre}*")),
        UseTree::Group(g) => for x in &g.items { leaves(pre, x, out) },
    }
}
/// names that the runtime did not import when the host module was written are imported as the runtime says
fn imports(place: &str, t: &UseTree, out: &mut TokenStream) {
    let known = include_str!("known_uses.txt");
    let mut all = vec![]; leaves("", t, &mut all);
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/uses.txt", std::env::var("OUT_DIR").unwrap())).unwrap();
    for l in all {
        let line = format!("{place} {l}");
        writeln!(f, "{line}").unwrap();
        if !known.lines().any(|k| k == line) { let u: Item = parse_str(&format!("#[allow(unused_imports)] use {l};")).unwrap(); out.extend(u.to_token_stream()) }
    }
}
fn emit(items: Vec<Item>, dir: &str, out: &mut TokenStream) { emit_at(items, dir, dir.trim_start_matches("/repo/parachain/runtime/"), out) }
fn emit_at(items: Vec<Item>, dir: &str, place: &str, out: &mut TokenStream) {
    let local: Vec<String> = items.iter().filter_map(|i| match i { Item::Mod(m) if !cfg_drop(&m.attrs) => Some(m.ident.to_string()), _ => None }).collect();
    for it in items {
        match it {
            // names from modules of the runtime itself; everything else comes from the host module
            Item::Use(u) if !cfg_drop(&u.attrs) && matches!(&u.tree, UseTree::Path(p) if local.contains(&p.ident.to_string()) || (p.ident == "runtime_common" && !dir.contains("common"))) => { let t = &u.tree; let v = &u.vis; out.extend(quote!(#[allow(unused_imports)] #v use #t;)) }
            Item::Use(u) if !cfg_drop(&u.attrs) => imports(place, &u.tree, out),
            Item::Use(_) | Item::ExternCrate(_) => {}
            Item::Mod(m) => {
                if cfg_drop(&m.attrs) { continue }
                let n = &m.ident;
                match &m.content {
                    None if n == "weights" => {
                        let mut inner = TokenStream::new();
                        for w in ["block_weights", "extrinsic_weights"] {
                            let its = parse(&format!("{dir}/weights/{w}.rs")).into_iter().filter(|i| !matches!(i, Item::Mod(_)));
                            let m = Ident::new(w, proc_macro2::Span::call_site());
                            inner.extend(quote!(pub mod #m { #(#its)* }));
                        }
                        out.extend(quote!(pub mod weights { #inner }));
                    }
                    None if n == "constants" => {
                        let t = std::fs::read_to_string(format!("{dir}/{n}.rs")).unwrap();
                        println!("cargo:rerun-if-changed={dir}/{n}.rs");
                        let f: File = parse_file(&t).unwrap(); let its = f.items;
                        out.extend(quote!(pub mod constants { #(#its)* }));
                    }
                    None => {
                        println!("cargo:rerun-if-changed={dir}/{n}.rs");
                        let t = std::fs::read_to_string(format!("{dir}/{n}.rs")).unwrap();
                        let f: File = parse_file(&t).unwrap();
                        let mut inner = TokenStream::new(); emit_at(f.items, dir, &format!("{place}/{n}"), &mut inner);
                        let names = if ["xcm_config", "dex", "evm", "contracts"].contains(&n.to_string().as_str()) { quote!(#[allow(unused_imports)] use crate::names::#n::*;) } else { quote!() };
                        out.extend(quote!(pub mod #n { use super::*; #names #inner }));
                    }
                    Some((_, its)) => { let mut inner = TokenStream::new(); emit_at(its.clone(), dir, &format!("{place}/{n}"), &mut inner); let v = &m.vis; out.extend(quote!(#v mod #n { use super::*; #inner })); }
                }
            }
            Item::Macro(m) => {
                if cfg_drop(&m.attrs) { continue }
                let p = m.mac.path.segments.last().unwrap().ident.to_string();
                match p.as_str() {
                    "parameter_types" => for e in split(m.mac.tokens.clone()) { let d = declared(&e); if !d.is_empty() && !DROP.contains(&d.as_str()) { out.extend(quote!(parameter_types! { #e })) } },
                    "parameter_type_with_key" => { let t = &m.mac.tokens; out.extend(quote!(parameter_type_with_key! { #t })) }
                    "construct_runtime" => out.extend(construct(m.mac.tokens.clone())),
                    _ => {}
                }
            }
            Item::Impl(mut i) => {
                if cfg_drop(&i.attrs) { continue }
                clean(&mut i.attrs);
                if let Some((_, tr, _)) = &i.trait_ {
                    let first = tr.segments.first().unwrap().ident.to_string(); let last = tr.segments.last().unwrap().ident.to_string();
                    if DROP_TRAIT.contains(&first.as_str()) || DROP_TRAIT.contains(&last.as_str()) { continue }
                    if last == "Config" && !REAL.contains(&first.as_str()) { continue }
                }
                if let Type::Path(p) = &*i.self_ty { if DROP.contains(&p.path.segments.last().unwrap().ident.to_string().as_str()) { continue } }
                let mut items = vec![];
                for mut x in i.items {
                    let a = match &mut x { ImplItem::Fn(f) => &mut f.attrs, ImplItem::Type(t) => &mut t.attrs, ImplItem::Const(c) => &mut c.attrs, _ => continue };
                    if cfg_drop(a) { continue }
                    clean(a);
                    if let ImplItem::Type(t) = &mut x { if UNIT.contains(&t.ident.to_string().as_str()) && i.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Config") { t.ty = match t.ident.to_string().as_str() { "SessionHandler" => parse_quote!(crate::keys::Handler), "Keys" => parse_quote!(crate::keys::Keys), _ => parse_quote!(()) } } }
                    items.push(x);
                }
                i.items = items;
                out.extend(i.to_token_stream());
            }
            mut other => {
                let (attrs, name) = match &mut other {
                    Item::Const(x) => (&mut x.attrs, x.ident.to_string()), Item::Enum(x) => (&mut x.attrs, x.ident.to_string()), Item::Fn(x) => (&mut x.attrs, x.sig.ident.to_string()),
                    Item::Static(x) => (&mut x.attrs, x.ident.to_string()), Item::Struct(x) => (&mut x.attrs, x.ident.to_string()), Item::Trait(x) => (&mut x.attrs, x.ident.to_string()),
                    Item::Type(x) => (&mut x.attrs, x.ident.to_string()), _ => continue };
                if cfg_drop(attrs) || DROP.contains(&name.as_str()) { continue }
                clean(attrs);
                out.extend(other.to_token_stream());
            }
        }
    }
}
fn parse(path: &str) -> Vec<Item> {
    println!("cargo:rerun-if-changed={path}");
    let f: File = parse_file(&std::fs::read_to_string(path).unwrap()).unwrap(); f.items
}
/// what both runtimes share
fn common() {
    let dir = "/repo/parachain/runtime/common/src";
    let (mut lib, mut evm) = (TokenStream::new(), TokenStream::new());
    emit(parse(&format!("{dir}/lib.rs")).into_iter().filter(|i| !matches!(i, Item::Mod(m) if m.ident == "evm")).collect(), dir, &mut lib);
    emit(parse(&format!("{dir}/evm/mod.rs")).into_iter().filter(|i| !matches!(i, Item::Mod(m) if m.ident == "precompiles") && !matches!(i, Item::Struct(s) if s.ident == "BaseFeeThreshold") && !matches!(i, Item::Impl(i) if i.self_ty.to_token_stream().to_string() == "BaseFeeThreshold")).collect(), dir, &mut evm);
    let out = quote!(#[allow(unused_imports)] use crate::names::common::*; #lib pub mod evm { #[allow(unused_imports)] pub use crate::names::common_evm::*; #evm });
    std::fs::write(format!("{}/common.rs", std::env::var("OUT_DIR").unwrap()), out.to_string()).unwrap();
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=known_uses.txt");
    let _ = std::fs::remove_file(format!("{}/uses.txt", std::env::var("OUT_DIR").unwrap()));
    common();
    for chain in ["interlay", "kintsugi"] {
        let dir = format!("/repo/parachain/runtime/{chain}/src");
        let lib = format!("{dir}/lib.rs");
        println!("cargo:rerun-if-changed={lib}");
        let f: File = parse_file(&std::fs::read_to_string(&lib).unwrap()).unwrap();
        let mut out = TokenStream::new();
        emit(f.items, &dir, &mut out);
        // the runtime names its own root as `crate`
        let text = out.to_string();
        let p = format!("{}/{chain}.rs", std::env::var("OUT_DIR").unwrap());
        let text = text.replace("crate ::", &format!("crate :: {chain} ::")).replace(&format!("crate :: {chain} :: names"), "crate :: names").replace(&format!("crate :: {chain} :: keys"), "crate :: keys");
        std::fs::write(&p, text).unwrap();
    }
}
