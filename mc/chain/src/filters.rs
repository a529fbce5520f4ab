// T02, for one runtime: which calls its filters let through. Included in the module of each runtime.
use kit::{guard, par, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use frame_support::traits::{GetCallMetadata, OriginTrait};
use frame_support::dispatch::Dispatchable;

pub type Name = (String, String);
pub struct Calls { /** every call that exists, with an example and whether it carries another call */ pub all: Vec<(Name, RuntimeCall, bool)>, pub unbuilt: Vec<Name> }
/// every call of the runtime: the list comes from the call types, an example from decoding bytes
pub fn calls() -> Calls {
    let mut reg = scale_info::Registry::new();
    let id = reg.register_type(&scale_info::meta_type::<RuntimeCall>()).id;
    let reg: scale_info::PortableRegistry = reg.into();
    let of = |i: u32| -> Vec<u32> { use scale_info::TypeDef::*;
        match &reg.resolve(i).unwrap().type_def { Composite(c) => c.fields.iter().map(|f| f.ty.id).collect(), Variant(v) => v.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.id)).collect(), Sequence(s) => vec![s.type_param.id], Array(a) => vec![a.type_param.id], Tuple(t) => t.fields.iter().map(|f| f.id).collect(), Compact(c) => vec![c.type_param.id], _ => vec![] } };
    let reaches = |start: Vec<u32>| { let (mut seen, mut todo) = (BTreeSet::new(), start); while let Some(i) = todo.pop() { if i == id { return true } if seen.insert(i) { todo.extend(of(i)) } } false };
    let variants = |i: u32| match &reg.resolve(i).unwrap().type_def { scale_info::TypeDef::Variant(v) => v.variants.clone(), _ => panic!("calls are enums") };
    let mut out = Calls { all: vec![], unbuilt: vec![] };
    for p in variants(id) { for c in variants(p.fields[0].ty.id) {
        let name = (p.name.clone(), c.name.clone());
        let nested = reaches(c.fields.iter().map(|f| f.ty.id).collect());
        let found = (0..=255u8).flat_map(|fill| [0usize, 1].map(|lead| (fill, lead))).find_map(|(fill, lead)| {
            let mut b = vec![p.index, c.index]; b.extend(vec![0; lead]); b.extend(vec![fill; 4096]);
            guard(|| RuntimeCall::decode_with_depth_limit(64, &mut &b[..]).ok()).ok().flatten()
        });
        match found { Some(x) => { let m = x.get_call_metadata(); assert_eq!((m.pallet_name, m.function_name), (&name.0[..], &name.1[..])); out.all.push((name, x, nested)) } None => out.unbuilt.push(name) }
    } }
    out
}
use codec::DecodeLimit;
const CORE: [&str; 8] = ["System", "Session", "Timestamp", "ParachainSystem", "Sudo", "Democracy", "Escrow", "TechnicalCommittee"];
type Paused = (String, Option<String>);
fn covered(p: &[Paused], n: &Name) -> bool { p.iter().any(|(a, c)| a == &n.0 && c.as_ref().map_or(true, |c| c == &n.1)) }
/// what the documentation of the filter promises
fn allowed(p: &[Paused], n: &Name) -> bool {
    if CORE.contains(&&n.0[..]) { true } else if n.0 == "PolkadotXcm" { n.1 == "send" } else if n.0 == "EVM" { false } else { !covered(p, n) }
}
fn acc(n: u8) -> AccountId { AccountId::new([n; 32]) }
type Bound = frame_support::BoundedVec<u8, <Runtime as tx_pause::Config>::MaxNameLen>;
fn bound(s: &str) -> Bound { s.as_bytes().to_vec().try_into().unwrap() }
fn pause(p: &Paused) -> bool { TxPause::pause(RuntimeOrigin::root(), (bound(&p.0), p.1.as_ref().map(|c| bound(c)))).is_ok() }
pub fn filters(chain: &str, ctx: &mut Ctx) {
    let calls = calls();
    ctx.bound(format!("{chain}: {} calls of {} pallets, {} of them carrying another call; no example could be built of {}", calls.all.len() + calls.unbuilt.len(), calls.all.iter().map(|c| &c.0.0).collect::<BTreeSet<_>>().len(), calls.all.iter().filter(|c| c.2).count(), calls.unbuilt.len()));
    ctx.ensure("examples", calls.unbuilt.len() < 5, || format!("no example of {:?}", calls.unbuilt));
    // everything that can be paused, alone; and pairs of neighbours
    let mut names: Vec<Paused> = calls.all.iter().map(|c| (c.0.0.clone(), Some(c.0.1.clone()))).collect();
    let pallets: BTreeSet<String> = calls.all.iter().map(|c| c.0.0.clone()).collect();
    names.extend(pallets.iter().map(|p| (p.clone(), None)));
    let mut sets: Vec<Vec<Paused>> = vec![vec![]];
    sets.extend(names.iter().map(|n| vec![n.clone()]));
    let pairs = if ctx.thorough() { names.len() } else { 3 };
    for i in 0..names.len() { for j in i + 1..(i + 1 + pairs).min(names.len()) { sets.push(vec![names[i].clone(), names[j].clone()]) } }
    ctx.bound(format!("{chain}: the filter for every call under each of {} sets of paused names", sets.len()));
    let calls = &calls;
    par(ctx, &sets, |ctx, set| { mcstore::isolated(Default::default(), || {
        let mut on: Vec<Paused> = vec![];
        for p in set { let r = pause(p); if r { on.push(p.clone()) } else { ctx.ensure(&format!("{chain}:pause-refused:{}", p.0), covered(&on, &(p.0.clone(), p.1.clone().unwrap_or_default())) || p.0 == "TxPause", || format!("root cannot pause {p:?}")); } }
        for (n, c, _) in &calls.all {
            let (got, want) = (BaseCallFilter::contains(c), allowed(&on, n));
            ctx.ensure(&format!("{chain}:{}:{}", if want { "core-or-unpaused-refused" } else { "let-through" }, n.0), got == want, || format!("with {on:?} paused, {}.{} is {}", n.0, n.1, if got { "allowed" } else { "refused" }));
            // a signed call sees exactly that filter, root none
            ctx.ensure(&format!("{chain}:signed-filter"), RuntimeOrigin::signed(acc(1)).filter_call(c) == want && RuntimeOrigin::root().filter_call(c), || format!("the origin's filter differs for {}.{}", n.0, n.1));
        }
        ctx.case(calls.all.len() as u64);
    }); });
    // wrapped in another call, a call passes no more than it would alone
    type W = (&'static str, fn(RuntimeCall) -> RuntimeCall);
    let wraps: [W; 5] = [
        ("batch", |c| RuntimeCall::Utility(pallet_utility::Call::batch { calls: vec![c] })), ("batch_all", |c| RuntimeCall::Utility(pallet_utility::Call::batch_all { calls: vec![c] })),
        ("force_batch", |c| RuntimeCall::Utility(pallet_utility::Call::force_batch { calls: vec![c] })),
        ("proxy", |c| RuntimeCall::Proxy(pallet_proxy::Call::proxy { real: acc(2).into(), force_proxy_type: None, call: Box::new(c) })),
        ("with_fee_swap_path", |c| RuntimeCall::MultiTransactionPayment(multi_transaction_payment::Call::with_fee_swap_path { path: vec![], amount_in_max: 0, call: Box::new(c) })) ];
    let mut chains: Vec<Vec<usize>> = (0..wraps.len()).map(|i| vec![i]).collect();
    for i in 0..wraps.len() { for j in 0..wraps.len() { chains.push(vec![i, j]) } }
    let wraps = &wraps; let chains = &chains;
    let items: Vec<usize> = (0..calls.all.len()).collect();
    par(ctx, &items, |ctx, i| {
        let (n, c, _) = &calls.all[*i];
        let none: Vec<Paused> = vec![]; let one = vec![(n.0.clone(), Some(n.1.clone()))]; let whole = vec![(n.0.clone(), None)];
        for set in [none, one, whole] { for chain_ in chains {
            if set.iter().any(|s| s.0 == "Utility" || s.0 == "Proxy" || s.0 == "MultiTransactionPayment") { continue }
            mcstore::isolated(Default::default(), || {
                let on: Vec<Paused> = set.iter().filter(|p| pause(p)).cloned().collect();
                Proxy::add_proxy(RuntimeOrigin::signed(acc(2)), acc(1).into(), ProxyType::Any, 0).ok();
                // the call, if it is let through, leaves a mark: it is given the balance needed by its wrappers only
                let call = chain_.iter().rev().fold(c.clone(), |x, w| wraps[*w].1(x));
                System::set_block_number(1);
                System::reset_events();
                let r = guard(|| call.dispatch(RuntimeOrigin::signed(acc(1))));
                let Ok(r) = r else { return };
                let filtered = DispatchError::from(frame_system::Error::<Runtime>::CallFiltered);
                let ev = format!("{:?}", System::events());
                let seen = r.as_ref().err().map_or(false, |e| e.error == filtered) || ev.contains(&format!("{:?}", filtered));
                if !allowed(&on, n) { ctx.ensure(&format!("{chain}:nested:{}", chain_.iter().map(|w| wraps[*w].0).collect::<Vec<_>>().join(">")), seen || ev.contains("NotProxy") || r.as_ref().err().map_or(false, |e| format!("{:?}", e.error).contains("NotProxy")), || format!("{}.{} runs inside {:?} although {on:?} paused: {:?} {}", n.0, n.1, chain_.iter().map(|w| wraps[*w].0).collect::<Vec<_>>(), r.map_err(|e| e.error), ev)); }
            });
            ctx.case(1);
        } }
    });
    ctx.bound(format!("{chain}: every call, alone paused, in a paused pallet or not paused, inside each of {} chains of up to two wrapping calls", chains.len()));
    // what another chain may have executed here
    for (n, c, nested) in &calls.all {
        let ok = xcm_config::SafeCallFilter::contains(c);
        if *nested { ctx.ensure(&format!("{chain}:xcm-recursion:{}", n.0), !ok, || format!("{}.{} leads to another call being made and passes the XCM call filter", n.0, n.1)); }
        if ["Issue", "Replace", "Redeem", "BTCRelay"].contains(&&n.0[..]) { ctx.ensure(&format!("{chain}:xcm-unbounded:{}", n.0), !ok, || format!("{}.{} takes an unbounded Bitcoin transaction and passes the XCM call filter", n.0, n.1)); }
        if ["Tokens", "Loans", "DexGeneral", "Escrow"].contains(&&n.0[..]) { ctx.ensure(&format!("{chain}:xcm-refused:{}", n.0), ok, || format!("{}.{} is refused although it is a plain call", n.0, n.1)); }
        // proxies are given everything, and no type is wider than itself
        ctx.ensure(&format!("{chain}:proxy"), ProxyType::Any.filter(c) && ProxyType::Any.is_superset(&ProxyType::Any), || format!("an `Any` proxy may not call {}.{}", n.0, n.1));
        use fp_self_contained::SelfContainedCall;
        if n.0 != "Ethereum" { ctx.ensure(&format!("{chain}:self-contained"), !c.is_self_contained() && c.check_self_contained().is_none() && c.clone().apply_self_contained(H160([1; 20])).is_none(), || format!("{}.{} is treated as an Ethereum transaction", n.0, n.1)); }
        ctx.case(4);
    }
    // contracts are created on the EVM only when that is switched on
    use pallet_ethereum::{Body, Transaction as Tx, TransactionAction as A};
    use fp_self_contained::SelfContainedCall;
    for switch in [None, Some(false), Some(true)] { for kind in [Tx::Legacy as fn(Body) -> Tx, Tx::EIP2930, Tx::EIP1559] { for action in [A::Create, A::Call(H160([7; 20]))] { for signer in [None, Some(H160([3; 20]))] {
        mcstore::isolated(Default::default(), || {
            if let Some(s) = switch { evm::EnableCreate::set(&s) }
            let call = RuntimeCall::Ethereum(pallet_ethereum::Call::transact { transaction: kind(Body { action, signer }) });
            let got = call.check_self_contained();
            let want: Option<Result<H160, sp_runtime::transaction_validity::TransactionValidityError>> = Some(if action == A::Create && switch != Some(true) { Err(InvalidTransaction::Call.into()) } else { signer.ok_or(InvalidTransaction::BadProof.into()) });
            ctx.eq(&format!("{chain}:evm-create"), || format!("{call:?} with EnableCreate {switch:?}"), &got, &want);
            ctx.ensure(&format!("{chain}:evm-self-contained"), call.is_self_contained(), || "an Ethereum transaction is not self-contained".into());
        });
        ctx.case(1);
    } } } }
    // only the listed accounts may set up vesting
    mcstore::isolated(Default::default(), || {
        let labs = KintsugiLabsAccounts::get();
        let mut who: Vec<(RuntimeOrigin, Option<AccountId>)> = vec![(RuntimeOrigin::none(), None), (RuntimeOrigin::root(), None)];
        for a in labs.iter().cloned().chain((0..=255).map(acc)).chain(get_all_module_accounts()) { who.push((RuntimeOrigin::signed(a.clone()), labs.contains(&a).then_some(a))) }
        for (o, want) in who { let what = format!("{o:?}"); ctx.eq(&format!("{chain}:labs"), || what.clone(), &EnsureKintsugiLabs::try_origin(o).ok(), &want); ctx.case(1); }
        ctx.ensure(&format!("{chain}:labs-list"), labs.len() == labs.iter().collect::<BTreeSet<_>>().len() && labs.iter().all(|a| !get_all_module_accounts().contains(a)), || format!("{labs:?}"));
    });
}
