use crate::{Gate, Setter, Who};
use codec::{Decode, Encode};
use frame_support::{Blake2_128Concat, StorageHasher};
use loans::{InterestRateModel, Market, MarketState};
use rt::*;
use traits::LoansApi;

const E18: u128 = 1_000_000_000_000_000_000;
const LEND: CurrencyId = CurrencyId::LendToken(7);
fn origin(w: Who) -> RuntimeOrigin { match w { Who::Root => root(), Who::User => signed(30), Who::Insider => signed(1), Who::Unsigned => frame_system::RawOrigin::None.into() } }
fn prefix(pallet: &str, item: &str) -> Vec<u8> { let mut k = sp_core::twox_128(pallet.as_bytes()).to_vec(); k.extend_from_slice(&sp_core::twox_128(item.as_bytes())); k }
fn value<V: Decode>(pallet: &str, item: &str) -> Option<V> { mcstore::get(&prefix(pallet, item)).map(|v| V::decode(&mut &v[..]).expect("decode")) }
fn raw<K: Encode, V: Decode>(pallet: &str, item: &str, key: &K) -> Option<V> { let mut k = prefix(pallet, item); k.extend_from_slice(&Blake2_128Concat::hash(&key.encode())); mcstore::get(&k).map(|v| V::decode(&mut &v[..]).expect("decode")) }
fn p(c: CurrencyId) -> Pair { Pair { collateral: c, wrapped: WRAPPED } }
fn fi(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
fn flat<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<(), String> { r.map(|_| ()).map_err(|e| err_name(&e)) }
fn s<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
fn name(b: &[u8]) -> frame_support::BoundedVec<u8, frame_support::traits::ConstU32<255>> { frame_support::BoundedVec::truncate_from(b.to_vec()) }
fn market() -> Market<Balance> {
    Market { collateral_factor: primitives::Ratio::from_percent(50), liquidation_threshold: primitives::Ratio::from_percent(60), reserve_factor: primitives::Ratio::from_percent(15), close_factor: primitives::Ratio::from_percent(50), liquidate_incentive: fi(E18 * 11 / 10),
        liquidate_incentive_reserved_factor: primitives::Ratio::from_percent(3), rate_model: model(2), state: MarketState::Pending, supply_cap: 1000, borrow_cap: 900, lend_token_id: LEND }
}
fn model(x: u128) -> InterestRateModel { InterestRateModel::new_jump_model(fi(E18 * x / 100), fi(E18 * 10 / 100), fi(E18 * 32 / 100), primitives::Ratio::from_percent(80)) }

pub fn gate() -> Gate {
    let g = Genesis { balances: vec![(10, COL, 5000), (30, COL, 5000), (1, COL, 5000), (1, NATIVE, 500)], col2: true, ..Default::default() };
    let start = mcstore::isolated(g.build(), || {
        VaultRegistry::register_vault(signed(10), p(COL), 1000).unwrap();
        VaultRegistry::register_vault(signed(11), p(COL2), 0).ok();
        Loans::add_market(root(), COL, market()).unwrap();
        let mut other = market(); other.lend_token_id = CurrencyId::LendToken(8);
        Loans::add_market(root(), COL2, other).unwrap();
        Loans::activate_market(root(), COL2).unwrap();
    }).1;
    let mut v: Vec<Setter> = vec![];
    let mut q: Vec<(&'static str, Box<dyn Fn() -> String + Sync>)> = vec![];
    macro_rules! set { ($n:expr, $call:expr, $($param:expr => $val:expr),+) => { v.push(Setter { name: $n.into(), call: Box::new($call), sets: Some(vec![$(($param, $val)),+]) }) } }
    macro_rules! deny { ($n:expr, $call:expr) => { v.push(Setter { name: $n.into(), call: Box::new($call), sets: None }) } }
    macro_rules! param { ($n:expr, $f:expr) => { q.push(($n, Box::new($f))) } }
    // vaults
    for (c, n) in [(COL, ["minimum DOT", "ceiling DOT", "secure DOT", "premium DOT", "liquidation DOT"]), (COL2, ["minimum KSM", "ceiling KSM", "secure KSM", "premium KSM", "liquidation KSM"])] {
        param!(n[0], move || s(raw::<_, u128>("VaultRegistry", "MinimumCollateralVault", &c)));
        param!(n[1], move || s(raw::<_, u128>("VaultRegistry", "SystemCollateralCeiling", &p(c))));
        param!(n[2], move || s(raw::<_, u128>("VaultRegistry", "SecureCollateralThreshold", &p(c))));
        param!(n[3], move || s(raw::<_, u128>("VaultRegistry", "PremiumRedeemThreshold", &p(c))));
        param!(n[4], move || s(raw::<_, u128>("VaultRegistry", "LiquidationCollateralThreshold", &p(c))));
        for x in [0u128, 77] {
            set!(format!("{} to {}", n[0], x), move |w| flat(VaultRegistry::set_minimum_collateral(origin(w), c, x)), n[0] => s(Some(x)));
            set!(format!("{} to {}", n[1], x), move |w| flat(VaultRegistry::set_system_collateral_ceiling(origin(w), p(c), x)), n[1] => s(Some(x)));
        }
        for x in [E18 * 3, E18 * 7 / 2] {
            set!(format!("{} to {}", n[2], x), move |w| flat(VaultRegistry::set_secure_collateral_threshold(origin(w), p(c), fi(x))), n[2] => s(Some(x)));
            set!(format!("{} to {}", n[3], x), move |w| flat(VaultRegistry::set_premium_redeem_threshold(origin(w), p(c), fi(x))), n[3] => s(Some(x)));
            set!(format!("{} to {}", n[4], x), move |w| flat(VaultRegistry::set_liquidation_collateral_threshold(origin(w), p(c), fi(x))), n[4] => s(Some(x)));
        }
    }
    // fees, by what is charged on an amount
    type F = fn(RuntimeOrigin, FixedU128) -> frame_support::dispatch::DispatchResultWithPostInfo;
    type G = fn(&Amount<Test>) -> Result<Amount<Test>, sp_runtime::DispatchError>;
    let fees: [(&'static str, F, G); 6] = [
        ("issue fee", Fee::set_issue_fee, Fee::get_issue_fee), ("issue griefing collateral", Fee::set_issue_griefing_collateral, Fee::get_issue_griefing_collateral),
        ("redeem fee", Fee::set_redeem_fee, Fee::get_redeem_fee), ("premium redeem fee", Fee::set_premium_redeem_fee, Fee::get_premium_redeem_fee),
        ("punishment fee", Fee::set_punishment_fee, Fee::get_punishment_fee), ("replace griefing collateral", Fee::set_replace_griefing_collateral, Fee::get_replace_griefing_collateral),
    ];
    for (n, f, g) in fees {
        param!(n, move || s(g(&Amount::new(E18, WRAPPED)).map(|a| a.amount())));
        for x in [0, E18 / 4, E18] { set!(format!("{} to {}", n, x), move |w| flat(f(origin(w), fi(x))), n => s(Ok::<u128, sp_runtime::DispatchError>(x))); }
        deny!(format!("{} above 100%", n), move |w| flat(f(origin(w), fi(E18 + 1))));
    }
    // request periods, by the requests made afterwards
    type H = fn(RuntimeOrigin, u64) -> frame_support::dispatch::DispatchResultWithPostInfo;
    let periods: [(&'static str, &'static str, H); 3] = [("IssuePeriod", "Issue", Issue::set_issue_period), ("RedeemPeriod", "Redeem", Redeem::set_redeem_period), ("ReplacePeriod", "Replace", Replace::set_replace_period)];
    for (n, pallet, f) in periods {
        param!(n, move || s(value::<u64>(pallet, n)));
        for x in [3u64, 500] { set!(format!("{} to {}", n, x), move |w| flat(f(origin(w), x)), n => s(Some(x))); }
    }
    param!("nomination", || s(Nomination::is_nomination_enabled()));
    for b in [false, true] { set!(format!("nomination {}", b), move |w| flat(Nomination::set_nomination_enabled(origin(w), b)), "nomination" => s(b)); }
    // oracles, by whose values are accepted
    for (a, n) in [(1u128, "oracle 1"), (2, "oracle 2")] {
        param!(n, move || s(Oracle::feed_values(signed(a), vec![(oracle::OracleKey::ExchangeRate(COL), fi(E18))]).is_ok()));
        set!(format!("authorise {}", n), move |w| flat(Oracle::insert_authorized_oracle(origin(w), a, name(b"x"))), n => s(true));
        set!(format!("revoke {}", n), move |w| flat(Oracle::remove_authorized_oracle(origin(w), a)), n => s(false));
    }
    // block counting, by the count after the next block
    param!("counting", || { let n = Security::active_block_number(); <Security as frame_support::traits::Hooks<u64>>::on_initialize(9); s(Security::active_block_number() - n) });
    for b in [false, true] { set!(format!("counting {}", b), move |w| flat(Security::activate_counter(origin(w), b)), "counting" => s(b as u64)); }
    // lending markets
    let m = |c| Loans::market(c).unwrap();
    param!("state", move || s(m(COL).state));
    param!("rate model", move || s(m(COL).rate_model));
    param!("factors", move || s((m(COL).collateral_factor, m(COL).liquidation_threshold)));
    param!("reserve factor", move || s(m(COL).reserve_factor));
    param!("close factor", move || s(m(COL).close_factor));
    param!("incentive", move || s(m(COL).liquidate_incentive));
    param!("incentive reserve", move || s(m(COL).liquidate_incentive_reserved_factor));
    param!("supply cap", move || s(m(COL).supply_cap));
    param!("borrow cap", move || s(m(COL).borrow_cap));
    param!("lend token", move || s((m(COL).lend_token_id, Loans::underlying_id(LEND).ok(), Loans::lend_token_id(COL).ok())));
    param!("other market", move || s((m(COL2), Loans::underlying_id(CurrencyId::LendToken(8)).ok())));
    param!("third market", || s(Loans::market(WRAPPED).is_ok()));
    let full = |w: Who, x: Option<u128>, which: usize| {
        use primitives::Ratio;
        let r = |i: usize| if which == i { x.map(|x| Ratio::from_perthousand(x as u32)) } else { None };
        flat(Loans::update_market(origin(w), COL, r(0), if which == 0 { x.map(|x| Ratio::from_perthousand(x as u32 + 50)) } else { None }, r(1), r(2), r(3), if which == 4 { x.map(|x| fi(E18 * x / 1000)) } else { None }, if which == 5 { x } else { None }, if which == 6 { x } else { None }))
    };
    for x in [200u128, 700] {
        let r = primitives::Ratio::from_perthousand(x as u32);
        set!(format!("factors to {}", x), move |w| full(w, Some(x), 0), "factors" => s((r, primitives::Ratio::from_perthousand(x as u32 + 50))));
        set!(format!("reserve factor to {}", x), move |w| full(w, Some(x), 1), "reserve factor" => s(r));
        set!(format!("close factor to {}", x), move |w| full(w, Some(x), 2), "close factor" => s(r));
        set!(format!("incentive reserve to {}", x), move |w| full(w, Some(x), 3), "incentive reserve" => s(r));
        set!(format!("incentive to {}", x + 1000), move |w| full(w, Some(x + 1000), 4), "incentive" => s(fi(E18 * (x + 1000) / 1000)));
        set!(format!("supply cap to {}", x), move |w| full(w, Some(x), 5), "supply cap" => s(x));
        set!(format!("borrow cap to {}", x), move |w| full(w, Some(x), 6), "borrow cap" => s(x));
        set!(format!("rate model to {}", x / 100), move |w| flat(Loans::update_rate_model(origin(w), COL, model(x / 100))), "rate model" => s(model(x / 100)));
    }
    set!("borrow cap to 0", move |w| full(w, Some(0), 6), "borrow cap" => s(0u128));
    set!("nothing", move |w| full(w, None, 0), "third market" => s(false));
    for (i, x) in [(0usize, 951u128), (0, 1000), (1, 1000), (1, 0), (3, 1000), (5, 0)] { deny!(format!("update_market argument {} out of range {}", i, x), move |w| full(w, Some(x), i)); }
    deny!("a rate model above its limit", |w| flat(Loans::update_rate_model(origin(w), COL, model(100))));
    deny!("a rate model of no market", |w| flat(Loans::update_rate_model(origin(w), WRAPPED, model(2))));
    deny!("a market twice", |w| flat(Loans::add_market(origin(w), COL, market())));
    deny!("a market with a used lend token", |w| flat(Loans::add_market(origin(w), WRAPPED, market())));
    deny!("an active new market", |w| { let mut m = market(); m.state = MarketState::Active; m.lend_token_id = CurrencyId::LendToken(9); flat(Loans::add_market(origin(w), WRAPPED, m)) });
    set!("force the market back", |w| flat(Loans::force_update_market(origin(w), COL, market())), "state" => s(MarketState::Pending), "rate model" => s(model(2)), "factors" => s((market().collateral_factor, market().liquidation_threshold)), "reserve factor" => s(market().reserve_factor),
        "close factor" => s(market().close_factor), "incentive" => s(market().liquidate_incentive), "incentive reserve" => s(market().liquidate_incentive_reserved_factor), "supply cap" => s(1000u128), "borrow cap" => s(900u128));
    set!("supervise the market", |w| { let mut m = market(); m.state = MarketState::Supervision; flat(Loans::force_update_market(origin(w), COL, m)) }, "state" => s(MarketState::Supervision), "rate model" => s(model(2)), "factors" => s((market().collateral_factor, market().liquidation_threshold)), "reserve factor" => s(market().reserve_factor),
        "close factor" => s(market().close_factor), "incentive" => s(market().liquidate_incentive), "incentive reserve" => s(market().liquidate_incentive_reserved_factor), "supply cap" => s(1000u128), "borrow cap" => s(900u128));
    deny!("force a market onto another's lend token", |w| { let mut m = market(); m.lend_token_id = CurrencyId::LendToken(8); flat(Loans::force_update_market(origin(w), COL, m)) });
    param!("speeds", || s((Loans::reward_supply_speed(COL2), Loans::reward_borrow_speed(COL2))));
    for (a, b) in [(3u128, 4u128), (0, 9)] { set!(format!("speeds to {} {}", a, b), move |w| flat(Loans::update_market_reward_speed(origin(w), COL2, Some(a), Some(b))), "speeds" => s((a, b))); }
    param!("reserves", || s((free(COL, 1), free(COL2, 1), free(COL2, 30))));
    deny!("reserves of nothing", |w| flat(Loans::add_reserves(origin(w), 1, COL2, 0)));
    deny!("reserves never earned", |w| flat(Loans::reduce_reserves(origin(w), 1, COL2, 1)));
    deny!("incentive reserves never earned", |w| flat(Loans::reduce_incentive_reserves(origin(w), 1, COL2, 1)));
    Gate { start, setters: v, params: q }
}
