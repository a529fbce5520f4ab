id="L03-wrong-market"; property="L03"; kind="loan"
needs="a liquidation whose collateral market has another close factor or incentive than the market of the debt"
breaks="close factor and incentive are taken from the collateral's market, so more than the debt's close factor can be liquidated, at the wrong bonus"
edits=[("crates/loans/src/lib.rs","""        let market = Self::market(liquidation_asset_id)?;

        if borrower == liquidator {""","""        let market = Self::market(collateral_asset_id)?;

        if borrower == liquidator {""")]
LOAN='''mod soc;
use loans::{InterestRateModel, Market, MarketState};
use orml_traits::MultiCurrency;
use soc::*;
use sp_runtime::FixedU128;
fn ppm(x: u32) -> Ratio { Ratio::from_parts(x) }
fn fx(n: u128, d: u128) -> FixedU128 { FixedU128::from_inner(n * 1_000_000_000_000_000_000 / d) }
const A: CurrencyId = Token(DOT);
const B: CurrencyId = Token(KSM);
fn market(l: u32) -> Market<Balance> {
    Market { collateral_factor: ppm(500_000), liquidation_threshold: ppm(600_000), reserve_factor: ppm(150_000), close_factor: ppm(500_000), liquidate_incentive: fx(11, 10), liquidate_incentive_reserved_factor: ppm(30_000), rate_model: InterestRateModel::new_jump_model(fx(1, 10), fx(1, 2), fx(5, 1), ppm(800_000)), state: MarketState::Pending, supply_cap: u128::MAX, borrow_cap: u128::MAX, lend_token_id: LendToken(l) }
}
fn start(f: impl FnOnce()) {
    let n = 1_000_000_000_000_000u128;
    let money: Vec<_> = (1..=4u128).flat_map(|a| [(a, A, n), (a, B, n), (a, NATIVE, n)]).collect();
    mcstore::isolated(genesis(&money, MIN_RATE), || {
        System::set_block_number(1);
        Timestamp::set_timestamp(1_000_000_000);
        for (c, l) in [(A, 1), (B, 2)] { set_price(c, Some((1, 1))); Loans::add_market(root(), c, market(l)).unwrap(); Loans::activate_market(root(), c).unwrap(); }
        f()
    });
}
fn at(days: u64) { Timestamp::set_timestamp(1_000_000_000 + days * 86_400_000) }
#[allow(dead_code)]
fn free(c: CurrencyId, a: AccountId) -> u128 { <Tokens as MultiCurrency<AccountId>>::free_balance(c, &a) }
'''
demo={"demo/src/main.rs":LOAN+'''
fn main() {
    start(|| {
        Loans::update_market(root(), A, None, None, None, Some(ppm(900_000)), None, Some(fx(15, 10)), None, None).unwrap();
        Loans::mint(signed(1), A, 1_000_000_000).unwrap();
        Loans::deposit_all_collateral(signed(1), A).unwrap();
        Loans::mint(signed(2), B, 9_000_000_000).unwrap();
        Loans::borrow(signed(1), B, 450_000_000).unwrap();
        set_price(A, Some((2, 3)));
        let liq = |x: u128| tx(|| Loans::liquidate_borrow(signed(3), 1, B, x, A));
        assert!(liq(300_000_000).is_err(), "at most half of the debt");
        liq(100_000_000).unwrap();
        // 100 units of debt, plus 10 percent, at 2/3 each, in lend tokens at the initial rate of 0.02, less the reserved 3 percent
        let got = free(LendToken(1), 3);
        let all = 165_000_000u128 * 50;
        assert!(got <= all && got > all * 96 / 100, "{} of {}", got, all);
    });
}
'''}
