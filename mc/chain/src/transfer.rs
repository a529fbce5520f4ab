// T03, for one runtime: which assets and programs of other chains are understood, and what their execution costs. Included in the
// module of each runtime.
use kit::{par, Ctx};
use super::xcm_config::*;
use crate::xcmini::xcm::latest::{prelude::*, Weight, WeightLimit, DoubleEncoded};
use crate::xcmini::xcm_executor::traits::{Assets, Properties, ProcessMessageError, ShouldExecute, WeightTrader};
use crate::stubs::orml_asset_registry;
use sp_runtime::traits::Convert;
use primitives::{CurrencyId as Id, TokenSymbol, LpToken};
use std::collections::{BTreeMap, BTreeSet};
use codec::{Decode, Encode};

const OWN: u32 = crate::stubs::parachain_info::OWN;
pub struct Known { pub relay: Id, pub native: Id, pub wrapped: Id }
/// registered assets of other chains: id, location, price per second
fn registered() -> Vec<(u32, MultiLocation, u128)> {
    vec![(1, MultiLocation::new(1, X2(Parachain(1000), GeneralIndex(1984))), 7_000_000_000_000), (2, MultiLocation::new(1, X1(Parachain(2001))), 0), (3, MultiLocation::new(0, X1(GeneralKey { length: 3, data: [9; 32] })), 1), (9, MultiLocation::new(2, X1(Parachain(OWN))), 1_000_000)]
}
fn setup() {
    for (id, l, fee) in registered() {
        let m = AssetMetadata { decimals: 10, name: vec![], symbol: vec![], existential_deposit: 0, location: Some(l), additional: primitives::CustomMetadata { fee_per_second: fee, coingecko_id: vec![] } };
        orml_asset_registry::Metadata::<Runtime>::insert(id, m);
        orml_asset_registry::LocationToAssetId::<Runtime>::insert(l, id);
    }
    // an asset that is registered without a place
    orml_asset_registry::Metadata::<Runtime>::insert(4, AssetMetadata { decimals: 10, name: vec![], symbol: vec![], existential_deposit: 0, location: None, additional: primitives::CustomMetadata { fee_per_second: 5, coingecko_id: vec![] } });
}
fn ids() -> Vec<Id> {
    let mut v: Vec<Id> = vec![];
    // every identifier of up to four bytes
    for a in 0..=255u8 { for b in 0..=255u8 { for len in [2usize, 5] { let bytes = [a, b, 0, 0, 0]; let mut s = &bytes[..len]; if let Ok(x) = Id::decode(&mut s) { if s.is_empty() && x.encode() == bytes[..len] { v.push(x) } } } } }
    v.push(Id::LpToken(LpToken::Token(TokenSymbol::DOT), LpToken::Token(TokenSymbol::KSM)));
    v
}
fn place(k: &Known, id: Id) -> Option<MultiLocation> {
    if id == k.relay { return Some(MultiLocation::parent()) }
    if id == k.native || id == k.wrapped { let e = id.encode(); let mut data = [0; 32]; data[..e.len()].copy_from_slice(&e); return Some(MultiLocation::new(1, X2(Parachain(OWN), GeneralKey { length: e.len() as u8, data }))) }
    match id { Id::ForeignAsset(n) => registered().into_iter().find(|r| r.0 == n).map(|r| r.1), _ => None }
}
fn to(id: Id) -> Option<MultiLocation> { <CurrencyIdConvert as Convert<Id, Option<MultiLocation>>>::convert(id) }
fn from(l: MultiLocation) -> Option<Id> { <CurrencyIdConvert as Convert<MultiLocation, Option<Id>>>::convert(l) }
fn names(chain: &str, k: &Known, ctx: &mut Ctx) {
    let all = ids();
    ctx.bound(format!("{chain}: {} currency identifiers to their locations and back", all.len()));
    let mut seen: BTreeMap<MultiLocation, Id> = BTreeMap::new();
    for id in &all {
        let got = to(*id);
        ctx.eq(&format!("{chain}:location"), || format!("the location of {id:?}"), &got, &place(k, *id));
        if let Some(l) = got {
            ctx.eq(&format!("{chain}:round-trip"), || format!("the currency at the location of {id:?}"), &from(l), &Some(*id));
            if let Some(o) = seen.insert(l, *id) { ctx.fail(format!("{chain}:shared-location"), format!("{o:?} and {id:?} share {l:?}"), vec![]) }
        }
        ctx.case(2);
    }
    // every key of up to 32 bytes (and longer claims) that starts with something that decodes, on this and other chains
    let mut bodies: BTreeSet<[u8; 32]> = BTreeSet::new();
    for fill in [0u8, 1, 0xff] { for id in [k.relay, k.native, k.wrapped, Id::ForeignAsset(1), Id::LendToken(1), Id::StableLpToken(0)] { let e = id.encode(); let mut d = [fill; 32]; d[..e.len()].copy_from_slice(&e); bodies.insert(d); } }
    for a in 0..=6u8 { for b in 0..=16u8 { let mut d = [0; 32]; d[0] = a; d[1] = b; bodies.insert(d); } }
    let mut n = 0u64;
    for data in &bodies { for length in 0..=255u8 {
        let key = GeneralKey { length, data: *data };
        let places = [(MultiLocation::new(0, X1(key)), true), (MultiLocation::new(1, X2(Parachain(OWN), key)), true), (MultiLocation::new(1, X2(Parachain(OWN + 1), key)), false), (MultiLocation::new(1, X1(key)), false), (MultiLocation::new(0, X2(Parachain(OWN), key)), false), (MultiLocation::new(2, X2(Parachain(OWN), key)), false), (MultiLocation::new(1, X2(key, Parachain(OWN))), false), (MultiLocation::new(1, X3(Parachain(OWN), key, key)), false)];
        for (l, here) in places {
            let got = kit::guard(|| from(l));
            let want = match registered().into_iter().find(|r| r.1 == l) { Some(r) => Some(Id::ForeignAsset(r.0)), None if here && length <= 32 => [k.native, k.wrapped].into_iter().find(|id| { let e = id.encode(); length as usize >= e.len() && data[..e.len()] == e[..] }), None => None };
            match got {
                Err(p) => ctx.fail(format!("{chain}:panic"), format!("{l:?}: {p}"), vec![]),
                // bytes after the identifier may be looked at or not, but never make it another asset
                Ok(g) => { let exact = want.map_or(true, |w| length as usize == w.encode().len()); ctx.ensure(&format!("{chain}:currency-at"), g == want || (!exact && g.is_none()), || format!("{l:?} is taken for {g:?}, not {want:?}")); }
            }
            n += 1;
        }
    } }
    ctx.case(n);
    ctx.bound(format!("{chain}: {} general keys of every length, in eight kinds of location", bodies.len()));
    for (_, l, _) in registered() { ctx.eq(&format!("{chain}:abstract"), || "an abstract asset".to_string(), &<CurrencyIdConvert as Convert<MultiAsset, Option<Id>>>::convert(MultiAsset { id: Abstract([7; 32]), fun: Fungible(1) }), &None);
        ctx.eq(&format!("{chain}:asset"), || format!("the currency of an asset at {l:?}"), &<CurrencyIdConvert as Convert<MultiAsset, Option<Id>>>::convert(MultiAsset { id: Concrete(l), fun: Fungible(1) }), &from(l)); }
    for n in 0..=255u8 { ctx.eq(&format!("{chain}:account"), || "the location of an account".to_string(), &AccountIdToMultiLocation::convert(AccountId::new([n; 32])), &MultiLocation::new(0, X1(AccountId32 { network: None, id: [n; 32] }))); ctx.case(1) }
}
type I = Instruction<RuntimeCall>;
fn program(chain: &str, ctx: &mut Ctx) {
    let a = MultiAsset { id: Concrete(MultiLocation::parent()), fun: Fungible(10) };
    let w = Weight::from_parts(1_000, 0);
    let t = || I::Transact { origin_kind: 0, require_weight_at_most: w, call: DoubleEncoded { encoded: vec![1], of: Default::default() } };
    let alphabet: Vec<I> = vec![I::WithdrawAsset(vec![a]), I::ReserveAssetDeposited(vec![a]), I::ClearOrigin, I::BuyExecution { fees: a, weight_limit: WeightLimit::Limited(w) }, I::BuyExecution { fees: a, weight_limit: WeightLimit::Limited(Weight::from_parts(999, 0)) }, I::BuyExecution { fees: a, weight_limit: WeightLimit::Unlimited }, t(), I::DepositAsset { beneficiary: MultiLocation::here() }, I::QueryResponse { query_id: 7, querier: None }, I::QueryResponse { query_id: 8, querier: None }, I::SubscribeVersion { query_id: 1, max_response_weight: w },
        // a transaction inside a program for another chain is that chain's business
        I::TransferReserveAsset { dest: MultiLocation::parent(), xcm: vec![Instruction::Transact { origin_kind: 0, require_weight_at_most: w, call: DoubleEncoded { encoded: vec![], of: Default::default() } }] }];
    let n = if ctx.thorough() { 5 } else { 4 };
    ctx.bound(format!("{chain}: every program of up to {n} of {} instructions, from the relay chain and a sibling, with and without weight credit", alphabet.len()));
    let firsts: Vec<usize> = (0..=alphabet.len()).collect();
    let alphabet = &alphabet;
    par(ctx, &firsts, |ctx, f| {
        let mut done = 0u64;
        let mut rest: Vec<Vec<usize>> = vec![];
        if *f == alphabet.len() { rest.push(vec![]) } else { for l in 0..n { kit::tuples(alphabet.len(), l, |t| { let mut v = vec![*f]; v.extend_from_slice(t); rest.push(v) }) } }
        for p in rest { for origin in [MultiLocation::parent(), MultiLocation::new(1, X1(Parachain(2001)))] { for credit in [0u64, 999, 1_000] {
            let mut xs: Vec<I> = p.iter().map(|i| alphabet[*i].clone()).collect();
            let mut props = Properties { weight_credit: Weight::from_parts(credit, 0), message_id: None };
            let got = Barrier::should_execute(&origin, &mut xs, w, &mut props).is_ok();
            let transacts = p.iter().any(|i| *i == 6);
            let paid = p.len() > 1 && p[0] <= 1 && { let k = 1 + p[1..].iter().take_while(|i| **i == 2).count(); k < 5 && k < p.len() && (p[k] == 3 || p[k] == 5) };
            let expected = p.len() == 1 && (p[0] == 10 || (p[0] == 8 && origin == MultiLocation::parent()));
            let want = !transacts && (credit >= 1_000 || paid || expected);
            ctx.ensure(&format!("{chain}:{}", if transacts { "transact-passes" } else if want { "barrier-refuses" } else { "barrier-passes" }), got == want, || format!("{:?} from {origin:?} with credit {credit}: {}", p.iter().map(|i| &alphabet[*i]).collect::<Vec<_>>(), if got { "executed" } else { "refused" }));
            done += 1;
        } } }
        ctx.case(done);
    });
    // two barriers in one: both have to let a program through
    struct Yes; struct No;
    impl ShouldExecute for Yes { fn should_execute<C>(_: &MultiLocation, _: &mut [Instruction<C>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> { Ok(()) } }
    impl ShouldExecute for No { fn should_execute<C>(_: &MultiLocation, _: &mut [Instruction<C>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> { Err(ProcessMessageError::Unsupported) } }
    use runtime_common::AndBarrier;
    let mut x: Vec<I> = vec![]; let mut p = Properties::default();
    let table = [AndBarrier::<Yes, Yes>::should_execute(&MultiLocation::parent(), &mut x, w, &mut p).is_ok(), AndBarrier::<Yes, No>::should_execute(&MultiLocation::parent(), &mut x, w, &mut p).is_ok(), AndBarrier::<No, Yes>::should_execute(&MultiLocation::parent(), &mut x, w, &mut p).is_ok(), AndBarrier::<No, No>::should_execute(&MultiLocation::parent(), &mut x, w, &mut p).is_ok()];
    ctx.eq(&format!("{chain}:and"), || "two barriers in one".to_string(), &table, &[true, false, false, false]);
}
/// what execution costs in each asset, and who is paid
fn price(chain: &str, k: &Known, per_second: u128, ratio: [(u128, u128); 2], author_paid: bool, ctx: &mut Ctx) {
    let near = |id: Id| { let e = id.encode(); let mut data = [0; 32]; data[..e.len()].copy_from_slice(&e); MultiLocation::new(0, X1(GeneralKey { length: e.len() as u8, data })) };
    let mut rates: Vec<(MultiLocation, Option<Id>, Option<u128>)> = vec![(MultiLocation::parent(), Some(k.relay), Some(per_second))];
    for (id, (n, d)) in [(k.native, ratio[0]), (k.wrapped, ratio[1])] { for l in [near(id), place(k, id).unwrap()] { rates.push((l, Some(id), Some(per_second * n / d))) } }
    for (id, l, fee) in registered() { rates.push((l, Some(Id::ForeignAsset(id)), Some(fee))) }
    rates.push((MultiLocation::new(1, X1(Parachain(4242))), None, None));
    rates.push((near(k.relay), None, None));
    let weights = [0u64, 200_000_000, 400_000_000, 999_999_999, 1_000_000_000_000, 3_500_000_000_001];
    ctx.bound(format!("{chain}: {} assets as payment for {} weights, exactly enough, one too little, one too much and none; one and two purchases by one program", rates.len(), weights.len()));
    for (l, id, rate) in &rates { for w in weights { for slack in [-1i8, 0, 1, 2] { for twice in [false, true] { for author in [None, Some(acc(21))] {
        let Some(want) = rate.map(|r| r * w as u128 / 1_000_000_000_000) else {
            let r = Trader::new().buy_weight(Weight::from_parts(w, 0), Assets([(Concrete(*l), u128::MAX / 2)].into()));
            // nothing to pay for nothing: any asset will do
            ctx.ensure(&format!("{chain}:unknown-payment"), w == 0 || r.is_err(), || format!("{l:?}, which is no known asset, pays for {w}"));
            continue };
        let total = if twice { want * 2 } else { want };
        let offer = match slack { -1 => match total.checked_sub(1) { Some(x) => x, None => continue }, 0 => total, 1 => total + 1, _ => total + 1_000_000 };
        mcstore::isolated(mcstore::snapshot(), || {
            pallet_session::Validators::<Runtime>::put(vec![acc(21)]);
            let mut d = sp_runtime::generic::Digest::default();
            if author.is_some() { d.push(sp_runtime::generic::DigestItem::PreRuntime(*b"aura", 0u32.to_le_bytes().to_vec())) }
            frame_system::DigestStore::<Runtime>::put(d);
            let mut t = Trader::new();
            let offered = Assets(if offer > 0 { [(Concrete(*l), offer)].into() } else { Default::default() });
            let what = || format!("{offer} of {l:?} for {w} of weight{}", if twice { ", twice" } else { "" });
            let mut r = t.buy_weight(Weight::from_parts(w, 0), offered);
            let mut paid = if r.is_ok() { want } else { 0 };
            if twice && r.is_ok() { r = t.buy_weight(Weight::from_parts(w, 0), r.unwrap()); if r.is_ok() { paid += want } }
            if total > 0 { ctx.ensure(&format!("{chain}:{}", if offer >= total { "payment-refused" } else { "underpaid" }), r.is_ok() == (offer >= total), || format!("{}: {r:?}, it costs {total}", what())); }
            if let Ok(rest) = &r { ctx.eq(&format!("{chain}:change"), || format!("what is left of {}", what()), &rest.0.get(&Concrete(*l)).copied().unwrap_or(0), &(offer - paid)); }
            drop(t);
            let to = if author_paid { author.clone().unwrap_or(TreasuryAccount::get()) } else { TreasuryAccount::get() };
            let id = id.unwrap();
            ctx.eq(&format!("{chain}:revenue"), || format!("what {:?} is paid by {}", to, what()), &<Tokens as orml_traits::MultiCurrency<AccountId>>::total_balance(id, &to), &paid);
            ctx.eq(&format!("{chain}:revenue-total"), || format!("what there is after {}", what()), &<Tokens as orml_traits::MultiCurrency<AccountId>>::total_issuance(id), &paid);
        });
        ctx.case(1);
    } } } } }
}
fn acc(n: u8) -> AccountId { AccountId::new([n; 32]) }
pub fn transfer(chain: &str, k: Known, per_second: u128, ratio: [(u128, u128); 2], author_paid: bool, ctx: &mut Ctx) {
    program(chain, ctx);
    mcstore::isolated(Default::default(), || { setup(); names(chain, &k, ctx); price(chain, &k, per_second, ratio, author_paid, ctx) });
}
