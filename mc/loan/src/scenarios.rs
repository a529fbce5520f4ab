//! The alphabets and starting states of L01 to L04.
use crate::lending::{Op::*, *};
use crate::model::*;
use crate::soc::*;
use kit::*;
use loans::{Market, MarketState};

const DAY: u64 = 86_400;
fn run(ctx: &mut Ctx, what: &str, m: Lending, depth: usize, bound: &str) {
    let n = bfs(ctx, &m, depth, 6_000_000);
    ctx.bound(format!("{}: all histories of {} operations from {} starting states, {} states: {}", what, depth, m.starts(), n, bound));
}
pub fn l01(ctx: &mut Ctx) {
    let mut a = Lending::new(100_000, |_| (), |_| vec![
        Mint(0, 0, 1000), Mint(1, 0, 7), Mint(1, 1, 5000), Mint(0, 2, 5), Redeem(0, 0, 1), Redeem(0, 0, 333), Redeem(1, 1, 77), RedeemAll(0, 0), RedeemAll(1, 1), RedeemAll(1, 0), Borrow(0, 1, 100), Borrow(0, 0, 50), Borrow(1, 0, 1), Repay(0, 1, 33), Repay(1, 0, 1), RepayAll(0, 1), RepayAll(0, 0), Deposit(0, 0), Deposit(1, 1), Withdraw(0, 0), Withdraw(1, 1),
        AddReserves(0, 10), ReduceReserves(1, 1), ReduceReserves(0, 1), Transfer(0, 1, 0, 1000), Transfer(1, 0, 1, 777), Donate(0, 3), Lock(0, 0, 500), Unlock(0, 0, 300), Time(6), Time(90 * DAY), Impostor,
    ]);
    a.scenario("supplied", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(1, 0, 7)]);
    a.scenario("collateral in both markets", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(1, 0, 7), Deposit(0, 0), Deposit(1, 1), Time(6)]);
    a.scenario("debts with interest", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(1, 0, 7), Deposit(0, 0), Deposit(1, 1), Time(6), Borrow(0, 1, 300), Borrow(1, 0, 600), Time(90 * DAY), Repay(0, 1, 33), Repay(1, 0, 33)]);
    a.scenario("all cash lent out", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Deposit(0, 0), Deposit(1, 1), Borrow(1, 0, 1000), Time(90 * DAY), AddReserves(0, 10), Mint(2, 0, 300)]);
    a.scenario("tokens locked elsewhere", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Lock(0, 0, 20_000), Deposit(1, 1), Borrow(1, 0, 10), Time(DAY)]);
    a.scenario("emptied with a remainder", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Deposit(1, 1), Borrow(1, 0, 900), Time(90 * DAY), RepayAll(1, 0), RedeemAll(0, 0)]);
    let d = ctx.pick(4, 5);
    run(ctx, "two markets", a, d, "mint, redeem, borrow, repay, collateral, reserves, lend token transfers, donations, reservations by others, time, and operations on a pending market and from origins without the right");
    // realistic amounts, a market whose exchange rate may leave its limits
    let mut l = Lending::new(1_000_000_000_000_000, |x| { x.mk[0].scap = 20_000_000_000_000; x.mk[0].bcap = 3_000_000_000_000; x.mk[0].price = Some((1, 31)) }, |_| vec![
        Mint(0, 0, 12_345_678_901_234), Mint(1, 0, 1), Mint(1, 1, 987_654_321), Redeem(0, 0, 1_111_111_111_111), Redeem(1, 0, 1), RedeemAll(1, 0), Borrow(1, 0, 2_999_999_999_999), Borrow(0, 1, 7), Repay(1, 0, 1_000_000_007), RepayAll(1, 0), Deposit(1, 1), Deposit(0, 0), Donate(0, 49), Donate(0, 900_000_000_000_000), Time(12), Time(400 * DAY), Activate(2), Mint(0, 2, 5),
    ]);
    l.scenario("large debt", &[Mint(0, 0, 12_345_678_901_234), Mint(1, 1, 987_654_321_000), Deposit(1, 1), Borrow(1, 0, 2_999_999_999_999), Time(12)]);
    l.scenario("dust market with donations", &[Mint(1, 0, 1), Donate(0, 48), Time(12)]);
    let d = ctx.pick(4, 5);
    run(ctx, "large amounts and limits", l, d, "amounts up to 10^15, supply and borrow caps, donations that push the exchange rate out of its limits");
    ctx.assume("orml-tokens is the shim's, with its mutation hooks wired to the lending pallet as in the runtimes; prices come from the checker");
}
pub fn l02(ctx: &mut Ctx) {
    // the rate models themselves, at every utilisation
    let curves: Vec<Curve> = {
        let mut v = vec![];
        for base in [0, ONE / 50, ONE / 10] { for jump in [ONE / 10, ONE / 3, ONE] { for full in [ONE, 5 * ONE] { for at in [1, 333_333, 800_000, 999_999, PPM] { v.push(Curve::Jump { base, jump, full, at }) } } } }
        for base in [0, ONE / 50, ONE / 10] { v.push(Curve::Power { base }) }
        v
    };
    let step = ctx.pick(17usize, 1);
    par(ctx, &curves, |ctx, c| {
        let model = rate_model(c);
        if !model.check_model() { ctx.fail("model-refused", format!("{:?}", c), vec![]); return }
        let mut last = 0;
        let mut utils: Vec<u128> = (0..=PPM).step_by(step).collect();
        if let Curve::Jump { at, .. } = c { utils.extend([at.saturating_sub(1), *at, (*at + 1).min(PPM)]) }
        utils.push(PPM);
        utils.sort();
        for u in utils {
            let got = model.get_borrow_rate(Ratio::from_parts(u as u32)).map(|r| r.into_inner());
            let (want, tol) = c.rate(u).unwrap();
            match got { Some(g) if g.abs_diff(want) <= tol && g + 2 * tol >= last => last = g, _ => { ctx.fail("rate", format!("{:?} at {} ppm: {:?}, expected {}, before {}", c, u, got, want, last), vec![]); return } }
        }
        ctx.case(PPM as u64 / step as u64);
    });
    // what a rate model may be
    for base in [0, ONE / 50, ONE / 10, ONE / 10 + 1, ONE] { for jump in [0, ONE / 50, ONE / 10, ONE, ONE + 1] { for full in [0, ONE / 50, ONE, 5 * ONE, 5 * ONE + 1] { for at in [0, 1, 500_000, PPM] {
        let c = Curve::Jump { base, jump, full, at };
        ctx.case(1);
        ctx.eq("model-validity", || format!("{:?}", c), &rate_model(&c).check_model(), &c.valid());
    } } } }
    ctx.bound(format!("{} rate models at every {} of the 1000001 utilisations, all 500 combinations of limiting rates and jump points", curves.len(), if step == 1 { "one".to_string() } else { format!("{}th", step) }));
    let curve = Curve::Power { base: ONE / 50 };
    let steep = Curve::Jump { base: ONE / 10, jump: ONE, full: 5 * ONE, at: 300_000 };
    let mut a = Lending::new(1_000_000_000, |x| { x.mk[0].cf = 900_000; x.mk[0].lt = 950_000; x.mk[1].cf = 900_000; x.mk[1].lt = 950_000 }, move |_| vec![
        Time(1), Time(6), Time(3600), Time(30 * DAY), Time(365 * DAY), Mint(2, 0, 50), Redeem(2, 0, 20), Borrow(1, 0, 100_000), Borrow(1, 0, 1), Repay(1, 0, 50_000), RepayAll(1, 0), Borrow(2, 0, 13), AddReserves(0, 1000), ReduceReserves(0, 100), Curved(0, curve), Curved(0, steep), Update(0, "reserve", 500_000), Update(0, "reserve", 1),
    ]).reported();
    a.scenario("a tenth lent out", &[Time(6), Mint(0, 0, 1_000_000), Mint(1, 1, 5_000_000), Mint(2, 0, 1000), Deposit(1, 1), Deposit(2, 0), Time(6), Borrow(1, 0, 100_000)]);
    a.scenario("nine tenths lent out", &[Mint(0, 0, 1_000_000), Mint(1, 1, 5_000_000), Mint(2, 0, 1000), Deposit(1, 1), Deposit(2, 0), Time(6), Borrow(1, 0, 900_000)]);
    a.scenario("everything lent out for a year", &[Mint(0, 0, 1_000_000), Mint(1, 1, 5_000_000), Mint(2, 0, 1000), Deposit(1, 1), Deposit(2, 0), Time(6), Borrow(1, 0, 1_001_000), Curved(0, steep), Time(365 * DAY), Mint(2, 0, 5000)]);
    a.scenario("two debtors at different times", &[Mint(0, 0, 1_000_000), Mint(1, 1, 5_000_000), Mint(2, 0, 1000), Deposit(1, 1), Deposit(2, 0), Time(6), Borrow(1, 0, 300_000), Time(30 * DAY), Borrow(2, 0, 500), Time(3600), Curved(0, curve)]);
    let d = ctx.pick(4, 5);
    run(ctx, "interest", a, d, "elapsed times of 1 s to one year in any order and division, utilisations from 0 to 100 %, three rate models, reserve factors, what each market reports about itself");
    ctx.assume("the recorded index and rate are adopted when they are within the rounding of 18 digits of a 40 digit computation; one 18 digit unit of error per elapsed second is allowed");
}
fn up(x: u128) -> u128 { x + 1 }
/// amounts at which an account's limits lie
fn limits(s: &St, users: &[usize], markets: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    let seen: Seen = { let mut z = Seen::default(); for m in 0..MARKETS { z[m] = (s.x.mk[m].index, 0) } z };
    for &u in users { for &m in markets {
        let Some((n, d)) = s.x.mk[m].price else { continue };
        let mut r = Run { n: s.x.clone(), seen: &seen, err: None };
        for k in 0..MARKETS { if r.n.mk[k].active { let _ = r.accrue(k); } }
        if let Some((free, _)) = r.liquidity(u, false) {
            let x = free * d / n;
            for y in [x.saturating_sub(1), x, up(x), up(up(x))] { if y > 0 && y <= s.x.cash(m) + 2 { v.push(Borrow(u, m, y)) } }
            if s.x.ac[u].dep[m] > 0 { let x = free * d / n * PPM / s.x.mk[m].cf.max(1); for y in [x.saturating_sub(1), x, up(x), up(up(x))] { if y > 0 { v.push(Redeem(u, m, y)) } } }
        }
        let Some(debt) = r.n.debt(u, m) else { continue };
        if debt > 0 { for c in 0..2 { if s.x.ac[u].dep[c] > 0 {
            let half = debt * s.x.mk[m].close / PPM;
            for y in [1, half, up(half), up(up(half)), debt, up(debt)] { v.push(Liquidate(2, u, m, y, c)) }
            // what the whole collateral pays for
            if let (Some((cn, cd)), Some(rate)) = (s.x.mk[c].price, r.n.rate(c)) { let all = s.x.ac[u].dep[c] * rate / ONE * cn / cd * ONE / s.x.mk[m].inc * d / n; for y in [all.saturating_sub(1), all, up(all)] { if y > 0 { v.push(Liquidate(2, u, m, y, c)) } } }
        } } }
    } }
    v
}
pub fn l03(ctx: &mut Ctx) {
    let mut a = Lending::new(100_000, |x| { x.mk[1].close = PPM; x.mk[1].incres = 500_000; x.mk[1].inc = ONE * 5 / 4 }, |s| {
        let mut v = limits(s, &[0, 1], &[0, 1]);
        v.extend([Price(0, Some((3, 2))), Price(0, Some((1, 1))), Price(0, Some((3, 1))), Price(0, None), Time(30 * DAY), Withdraw(0, 0), Withdraw(1, 1), Deposit(0, 0), Deposit(2, 0), Transfer(0, 2, 0, 100), RepayAll(0, 1), Liquidate(0, 0, 1, 1, 0), Liquidate(2, 0, 1, 0, 0), Liquidate(2, 0, 1, 1, 1), Liquidate(2, 0, 2, 1, 0), ReduceIncentive(0, 1), Update(0, "threshold", 999_999), Update(0, "collateral", 0)]);
        v
    });
    a.scenario("two borrowers", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(2, 0, 2000), Deposit(0, 0), Deposit(1, 1), Borrow(0, 1, 700), Borrow(1, 0, 1000), Time(6)]);
    a.scenario("below the threshold", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(2, 0, 2000), Deposit(0, 0), Deposit(1, 1), Borrow(0, 1, 750), Borrow(1, 0, 1600), Time(6), Price(0, Some((1, 1)))]);
    a.scenario("above and below", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(2, 0, 2000), Deposit(0, 0), Deposit(2, 0), Deposit(1, 1), Borrow(0, 1, 750), Borrow(1, 0, 1600), Time(30 * DAY), Price(0, Some((3, 1)))]);
    a.scenario("collateral in two currencies", &[Mint(0, 0, 1000), Mint(0, 1, 300), Mint(1, 1, 5000), Mint(2, 0, 2000), Deposit(0, 0), Deposit(0, 1), Borrow(0, 1, 500), Borrow(0, 0, 200), Time(30 * DAY), Price(0, Some((1, 2)))]);
    a.scenario("rounded totals", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Deposit(0, 0), Borrow(0, 1, 3), Time(30 * DAY), Mint(2, 1, 50), Time(30 * DAY), Mint(2, 1, 50), Price(0, Some((1, 300)))]);
    let d = ctx.pick(3, 4);
    run(ctx, "limits", a, d, "borrow, redeem, withdraw and liquidate at, just below and just above every account's limits, prices up, down and missing");
    // values that round to nothing
    let mut z = Lending::new(1_000_000, |x| { x.mk[0].price = Some((1, 1000)); x.mk[0].close = 1; }, |_| vec![Borrow(0, 0, 999), Borrow(0, 0, 1000), Borrow(0, 0, 1), Borrow(2, 0, 999), Repay(0, 0, 999), Deposit(0, 1), Withdraw(0, 1), Redeem(0, 1, 1), RedeemAll(0, 1), Liquidate(2, 0, 0, 999, 1), Liquidate(2, 0, 0, 1000, 1), Liquidate(2, 0, 0, 2000, 1), Price(0, Some((1, 100))), Price(0, Some((1, 1000))), Time(30 * DAY), Update(0, "close", 0), Update(1, "collateral", 1)]);
    z.scenario("nearly no collateral", &[Mint(1, 0, 500_000), Mint(0, 1, 4), Deposit(0, 1)]);
    z.scenario("at the limit", &[Mint(1, 0, 500_000), Mint(0, 1, 4), Deposit(0, 1), Borrow(0, 0, 2000)]);
    z.only();
    let d = ctx.pick(4, 6);
    run(ctx, "dust", z, d, "amounts worth less than one unit of the reference currency");
    parameters(ctx);
    ctx.assume("prices come from the checker; conversions through the reference currency round down");
}
/// which markets can be created and how they can change
fn parameters(ctx: &mut Ctx) {
    let edge = [0, 1, 500_000, 999_999, PPM];
    let mut items = vec![];
    for cf in edge { for lt in edge { for rf in edge { for incres in [0, 999_999, PPM] { for close in [0, PPM] { for scap in [0, 1] { items.push((cf, lt, rf, incres, close, scap)) } } } } } }
    let plain = crate::lending::Lending::new(0, |_| (), |_| vec![]);
    let map = plain.start_map();
    par(ctx, &items, |ctx, &(cf, lt, rf, incres, close, scap)| {
        let mut k = Model::default_market(None);
        (k.cf, k.lt, k.rf, k.incres, k.close, k.scap) = (cf, lt, rf, incres, close, scap);
        let new = Market { lend_token_id: LendToken(9), ..market(&k, 0) };
        let (r, _) = mcstore::isolated(map.clone(), || {
            let a = tx(|| Loans::add_market(root(), Token(KINT), new)).is_ok();
            let stored = Loans::market(Token(KINT)).ok();
            let p = |x: u128| Some(Ratio::from_parts(x as u32));
            let b = tx(|| Loans::update_market(root(), M[0], p(cf), p(lt), p(rf), p(close), p(incres), None, Some(scap), None)).is_ok();
            (a, stored, b, Loans::market(M[0]).unwrap())
        });
        ctx.case(2);
        let want = valid(&k);
        let what = || format!("{:?}", (cf, lt, rf, incres, close, scap));
        ctx.eq("add-market", what, &r.0, &want);
        ctx.eq("added-market", what, &r.1, &want.then_some(new));
        ctx.eq("update-market", what, &r.2, &want);
        let active = |k: &Mk| Market { state: MarketState::Active, ..market(k, 0) };
        ctx.eq("updated-market", what, &r.3, &if want { active(&k) } else { active(&Model::default_market(None)) });
    });
    let (r, _) = mcstore::isolated(map, || {
        let base = market(&Model::default_market(None), 0);
        let add = |c: CurrencyId, m: Market<Balance>| tx(|| Loans::add_market(root(), c, m)).is_ok();
        let force = |c: CurrencyId, m: Market<Balance>| tx(|| Loans::force_update_market(root(), c, m)).is_ok();
        let fresh = Market { lend_token_id: LendToken(9), ..base };
        mcstore::begin();
        let v = vec![
            ("an existing market", add(M[0], fresh), false),
            ("a lend token in use", add(Token(KINT), Market { lend_token_id: L[0], ..base }), false),
            ("an asset of a market as lend token", add(Token(KINT), Market { lend_token_id: M[1], ..base }), false),
            ("an active new market", add(Token(KINT), Market { state: MarketState::Active, ..fresh }), false),
            ("a supervised new market", add(Token(KINT), Market { state: MarketState::Supervision, ..fresh }), false),
            ("a new market with an invalid rate model", add(Token(KINT), Market { rate_model: rate_model(&Curve::Jump { base: 1, jump: 0, full: 0, at: 1 }), ..fresh }), false),
            ("forcing the lend token of another market", force(M[0], Market { lend_token_id: L[1], ..base }), false),
            ("forcing a missing market", force(Token(KINT), fresh), false),
            ("forcing an invalid rate model", force(M[0], Market { rate_model: rate_model(&Curve::Power { base: ONE }), ..base }), false),
            ("activating an active market", tx(|| Loans::activate_market(root(), M[0])).is_ok(), false),
            ("activating a missing market", tx(|| Loans::activate_market(root(), Token(KINT))).is_ok(), false),
            ("updating a missing market", tx(|| Loans::update_market(root(), Token(KINT), None, None, None, None, None, None, None, None)).is_ok(), false),
            ("forcing a market to be supervised", force(M[0], Market { state: MarketState::Supervision, ..base }), true),
            ("a new market", add(Token(KINT), fresh), true),
            ("the same market again", add(Token(KINT), fresh), false),
        ];
        let supervised = tx(|| Loans::mint(signed(1), M[0], 100)).is_ok();
        mcstore::rollback();
        (v, supervised)
    });
    for (what, got, want) in r.0 { ctx.case(1); ctx.eq("market-admin", || what.to_string(), &got, &want); }
    ctx.eq("supervised", || "minting in a supervised market".into(), &r.1, &false);
    ctx.bound(format!("{} combinations of market parameters for new and existing markets, 15 administrative operations", items.len()));
}
pub fn l04(ctx: &mut Ctx) {
    let mut a = Lending::new(100_000, |_| (), |_| vec![
        Block(1), Block(7), Claim(0), Claim(1), Claim(2), ClaimMarket(0, 1), Fund(10), Fund(1_000_000), Speed(0, Some(100), Some(30)), Speed(0, Some(0), None), Speed(1, None, Some(77)), Speed(2, Some(1), Some(1)),
        Mint(0, 0, 1000), Mint(2, 0, 10), RedeemAll(0, 0), Redeem(0, 0, 100), Borrow(0, 1, 100), Repay(0, 1, 50), RepayAll(0, 1), Deposit(0, 0), Withdraw(0, 0), Transfer(0, 2, 0, 1000), Liquidate(2, 0, 1, 100, 0), Time(90 * DAY), Price(0, Some((1, 1))), ReduceIncentive(0, 1),
    ]).rewarded();
    a.scenario("suppliers and a borrower", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(2, 0, 300), Speed(0, Some(100), None), Speed(1, Some(7), Some(1000)), Block(1), Deposit(0, 0), Borrow(0, 1, 400), Block(3), Fund(1_000_000)]);
    a.scenario("liquidatable borrower", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(2, 0, 300), Speed(0, Some(100), None), Speed(1, Some(7), Some(1000)), Deposit(0, 0), Borrow(0, 1, 700), Block(5), Time(90 * DAY), Price(0, Some((1, 1))), Fund(1_000_000), Block(2)]);
    a.scenario("short of funds", &[Mint(0, 0, 1000), Mint(1, 1, 5000), Mint(2, 0, 300), Speed(0, Some(100), None), Block(7), Fund(10)]);
    a.scenario("two borrowers", &[Mint(0, 0, 3000), Mint(1, 1, 5000), Mint(2, 0, 300), Deposit(0, 0), Deposit(2, 0), Speed(1, Some(7), Some(1000)), Borrow(0, 1, 700), Block(5), Time(90 * DAY), Borrow(2, 1, 100), Block(5), Fund(1_000_000)]);
    let d = ctx.pick(3, 4);
    run(ctx, "rewards", a, d, "blocks, reward speeds, claims with and without funds, every operation that changes a share, liquidations; after every step what each account could claim");
}
