//! M01: all operand pairs of a boundary alphabet, and every balance operation.
use kit::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use rt::*;
use currency::Rounding;
use sp_arithmetic::{PerThing, Permill};
type A = Amount<Test>;
fn alphabet(thorough: bool) -> Vec<u128> {
    let one = 1_000_000_000_000_000_000u128;
    let mut v = vec![0u128, 1, 2, 3, 7, 99, 100, 101, one - 1, one, one + 1, 3 * one / 2, 10 * one, u64::MAX as u128, i64::MAX as u128, i128::MAX as u128, i128::MAX as u128 + 1, u128::MAX - 1, u128::MAX, u128::MAX / one, u128::MAX / one + 1, i128::MAX as u128 / one, i128::MAX as u128 / one + 1, u128::MAX / 2, u128::MAX / 2 + 1];
    if thorough { for b in 0..128 { for d in [-1i32, 0, 1] { let x = 1u128 << b; v.push(match d { -1 => x - 1, 0 => x, _ => x.saturating_add(1) }) } } for k in 1..=12 { v.push(one / k); v.push(one * k / 3) } for p in 0..=38 { v.push(10u128.pow(p)); v.push(10u128.pow(p).saturating_sub(1)) } }
    v.sort(); v.dedup();
    v
}
const ONE: u128 = 1_000_000_000_000_000_000;
fn b(x: u128) -> BigUint { BigUint::from(x) }
/// a*b/c
fn muldiv(x: u128, y: u128, z: u128, up: bool) -> Option<u128> {
    if z == 0 { return None }
    let n = b(x) * y;
    let r = if up { (n + (z - 1)) / z } else { n / z };
    r.to_u128()
}
/// to the nearest, halves up or down
fn nearest(x: u128, y: u128, z: u128, half_up: bool) -> Option<u128> {
    if z == 0 { return None }
    let n = b(x) * y;
    let f = &n / z;
    let r = &n % z * 2u8;
    (if r > b(z) || (half_up && r == b(z)) { f + 1u8 } else { f }).to_u128()
}
fn pair(ctx: &mut Ctx, x: u128, y: u128) {
    let (p, q, o) = (A::new(x, COL), A::new(y, COL), A::new(y, COL2));
    let ok = |r: Result<Result<A, sp_runtime::DispatchError>, String>| -> Result<Option<u128>, String> { match r? { Ok(a) if a.currency() == COL => Ok(Some(a.amount())), Ok(a) => Err(format!("currency {:?}", a.currency())), Err(_) => Ok(None) } };
    let s = FixedU128::from_inner(y);
    let mut t = |what: &str, got: Result<Option<u128>, String>, want: Option<u128>| { ctx.case(1); ctx.outcome(if want.is_some() { "value" } else { "error" }); if got != Ok(want) { ctx.fail(what, format!("{} of {} and {}: {:?}, expected {:?}", what, x, y, got, want), vec![format!("{} {}", x, y)]) } };
    t("add", ok(guard(|| p.checked_add(&q))), x.checked_add(y));
    t("accrue", ok(guard(|| { let mut a = p.clone(); a.checked_accrue(&q).map(|x| x.clone()) })), x.checked_add(y));
    t("sub", ok(guard(|| p.checked_sub(&q))), x.checked_sub(y));
    t("saturating-sub", ok(guard(|| p.saturating_sub(&q))), Some(x.saturating_sub(y)));
    t("mul", ok(guard(|| p.checked_mul(&s))), muldiv(x, y, ONE, false));
    t("mul-down", ok(guard(|| p.checked_rounded_mul(&s, Rounding::Down))), muldiv(x, y, ONE, false));
    t("mul-up", ok(guard(|| p.checked_rounded_mul(&s, Rounding::Up))), muldiv(x, y, ONE, true));
    t("mul-nearest-up", ok(guard(|| p.checked_rounded_mul(&s, Rounding::NearestPrefUp))), nearest(x, y, ONE, true));
    t("mul-nearest-down", ok(guard(|| p.checked_rounded_mul(&s, Rounding::NearestPrefDown))), nearest(x, y, ONE, false));
    t("div", ok(guard(|| p.checked_div(&s))), muldiv(x, ONE, y, false));
    t("min", ok(guard(|| p.min(&q))), Some(x.min(y)));
    t("max", ok(guard(|| p.max(&q))), Some(x.max(y)));
    t("ratio", guard(|| p.ratio(&q).ok().map(|r| r.into_inner())), muldiv(x, ONE, y, false));
    t("set-currency", guard(|| { let c = p.set_currency(COL2); (c.currency() == COL2).then_some(c.amount()) }), Some(x));
    let bo = |r: Result<bool, sp_runtime::DispatchError>| r.ok().map(|x| x as u128);
    for (n, got, want) in [("lt", guard(|| bo(p.lt(&q))), x < y), ("le", guard(|| bo(p.le(&q))), x <= y), ("eq", guard(|| bo(p.eq(&q))), x == y), ("ne", guard(|| bo(p.ne(&q))), x != y), ("ge", guard(|| bo(p.ge(&q))), x >= y), ("gt", guard(|| bo(p.gt(&q))), x > y)] { t(n, got, Some(want as u128)) }
    // other currency
    for (n, got) in [("add", ok(guard(|| p.checked_add(&o)))), ("accrue", ok(guard(|| { let mut a = p.clone(); a.checked_accrue(&o).map(|x| x.clone()) }))), ("sub", ok(guard(|| p.checked_sub(&o)))), ("saturating-sub", ok(guard(|| p.saturating_sub(&o)))), ("min", ok(guard(|| p.min(&o)))), ("max", ok(guard(|| p.max(&o)))), ("ratio", guard(|| p.ratio(&o).ok().map(|r| r.into_inner()))),
        ("lt", guard(|| bo(p.lt(&o)))), ("le", guard(|| bo(p.le(&o)))), ("eq", guard(|| bo(p.eq(&o)))), ("ne", guard(|| bo(p.ne(&o)))), ("ge", guard(|| bo(p.ge(&o)))), ("gt", guard(|| bo(p.gt(&o))))] { t(&format!("mixed-{}", n), got, None) }
    let ratio = Permill::from_parts((y % 1_000_001) as u32);
    t("ratio-floor", guard(|| { let a = p.mul_ratio_floor(ratio); (a.currency() == COL).then_some(a.amount()) }), muldiv(x, ratio.deconstruct() as u128, Permill::ACCURACY as u128, false));
}
fn single(ctx: &mut Ctx, x: u128) {
    let p = A::new(x, COL);
    let mut t = |what: &str, got: Result<Option<u128>, String>, want: Option<u128>| { ctx.case(1); if got != Ok(want) { ctx.fail(what, format!("{} of {}: {:?}, expected {:?}", what, x, got, want), vec![format!("{}", x)]) } };
    t("to-signed", guard(|| p.to_signed_fixed_point().ok().map(|y| y.into_inner() as u128)), i128::try_from(x).ok().and_then(|x| x.checked_mul(ONE as i128)).map(|x| x as u128));
    t("to-unsigned", guard(|| p.to_unsigned_fixed_point().ok().map(|y| y.into_inner())), x.checked_mul(ONE));
    t("from-unsigned", guard(|| A::from_unsigned_fixed_point(FixedU128::from_inner(x), COL).ok().and_then(|y| (y.currency() == COL).then_some(y.amount()))), Some(x / ONE));
    for s in [x as i128, (x as i128).wrapping_neg()] {
        let whole = s / ONE as i128;
        t("from-signed", guard(|| A::from_signed_fixed_point(FixedI128::from_inner(s), COL).ok().map(|y| y.amount())), u128::try_from(whole).ok());
    }
    t("zero", guard(|| Some(A::zero(COL).amount())), Some(0));
    t("is-zero", guard(|| Some(p.is_zero() as u128)), Some((x == 0) as u128));
    t("amount", guard(|| (p.currency() == COL).then_some(p.amount())), Some(x));
    t("map", guard(|| Some(p.map(|a| a / 3).amount())), Some(x / 3));
}
/// locking, unlocking, burning, minting and transferring between two accounts, for all balances and amounts
fn balances(ctx: &mut Ctx) {
    let vals = [0u128, 1, 2, 5, 10, u64::MAX as u128, u128::MAX / 4];
    let mut cases = vec![];
    for f1 in vals { for r1 in vals { for f2 in [0, 3, u128::MAX / 4] { for x in [0, 1, 2, 3, 5, 6, 10, 11, u128::MAX / 4, u128::MAX] { cases.push((f1, r1, f2, x)) } } } }
    let base = Genesis { vaults: 0, difficulty_check: true, ..Default::default() }.build();
    par(ctx, &cases, |ctx, &(f1, r1, f2, x)| {
        let (_, map) = mcstore::isolated(base.clone(), || {
            for (a, f) in [(5u128, f1 + r1), (6, f2)] { A::new(f, COL).mint_to(&a).unwrap(); A::new(77, COL2).mint_to(&a).unwrap(); }
            A::new(r1, COL).lock_on(&5).unwrap();
        });
        let view = || [free(COL, 5), reserved(COL, 5), free(COL, 6), reserved(COL, 6), free(COL2, 5), reserved(COL2, 5), free(COL2, 6), reserved(COL2, 6), <Tokens as orml_traits::MultiCurrency<AccountId>>::total_issuance(COL), <Tokens as orml_traits::MultiCurrency<AccountId>>::total_issuance(COL2)];
        let start = mcstore::isolated(map.clone(), view).0;
        let total = f1 + r1 + f2;
        ctx.ensure("setup", start == [f1, r1, f2, 0, 77, 0, 77, 0, total, 154], || format!("balances {:?} after minting {} and {} and locking {}", start, f1 + r1, f2, r1));
        let am = A::new(x, COL);
        let with = |c: &[(usize, u128)]| -> [u128; 10] { let mut v = start; for (i, y) in c { v[*i] = *y } v };
        let mut t = |what: &str, f: &dyn Fn() -> Result<(), sp_runtime::DispatchError>, want: Option<[u128; 10]>| {
            let ((r, got), _) = mcstore::isolated(map.clone(), || { let r = guard(|| tx(f)); (r, view()) });
            ctx.case(1);
            ctx.outcome(if want.is_some() { "done" } else { "refused" });
            let ok = match (&r, &want) { (Ok(Ok(())), Some(w)) => got == *w, (Ok(Err(_)), None) => got == start, _ => false };
            if !ok { ctx.fail(what, format!("{} of {} on free {} reserved {} (other account {}): {:?} leaves {:?}, expected {:?}", what, x, f1, r1, f2, r, got, want), vec![what.into()]) }
        };
        t("lock", &|| am.lock_on(&5), (x <= f1).then(|| with(&[(0, f1.wrapping_sub(x)), (1, r1.wrapping_add(x))])));
        t("unlock", &|| am.unlock_on(&5), (x <= r1).then(|| with(&[(0, f1.wrapping_add(x)), (1, r1.wrapping_sub(x))])));
        t("burn", &|| am.burn_from(&5), (x <= r1).then(|| with(&[(1, r1.wrapping_sub(x)), (8, total.wrapping_sub(x))])));
        t("mint", &|| am.mint_to(&6), f2.checked_add(x).and_then(|f| total.checked_add(x).map(|n| with(&[(2, f), (8, n)]))));
        t("transfer", &|| am.transfer(&5, &6), (x <= f1).then(|| with(&[(0, f1.wrapping_sub(x)), (2, f2.wrapping_add(x))])));
        t("transfer-self", &|| am.transfer(&5, &5), Some(start));
        t("free", &|| Ok(assert_eq!(currency::get_free_balance::<Test>(COL, &5), A::new(f1, COL))), Some(start));
        t("reserved", &|| Ok(assert_eq!(currency::get_reserved_balance::<Test>(COL, &5), A::new(r1, COL))), Some(start));
    });
    ctx.bound(format!("every balance operation on {} combinations of free, reserved and moved amounts", cases.len()));
}
/// lend tokens with fixed exchange rates
struct Lend;
fn lend_rate(c: CurrencyId) -> Option<(CurrencyId, u128)> { match c { CurrencyId::LendToken(1) => Some((COL, ONE / 50)), CurrencyId::LendToken(2) => Some((COL2, 3 * ONE / 2 + 1)), CurrencyId::LendToken(3) => Some((WRAPPED, ONE)), _ => None } }
impl traits::LoansApi<CurrencyId, AccountId, A> for Lend {
    fn do_mint(_: &AccountId, _: &A) -> Result<(), sp_runtime::DispatchError> { unreachable!() }
    fn do_borrow(_: &AccountId, _: &A) -> Result<(), sp_runtime::DispatchError> { unreachable!() }
    fn do_deposit_collateral(_: &AccountId, _: &A) -> Result<(), sp_runtime::DispatchError> { unreachable!() }
    fn do_withdraw_collateral(_: &AccountId, _: &A) -> Result<(), sp_runtime::DispatchError> { unreachable!() }
    fn do_repay_borrow(_: &AccountId, _: &A) -> Result<(), sp_runtime::DispatchError> { unreachable!() }
    fn do_redeem(_: &AccountId, _: &A, _: &A) -> Result<(), sp_runtime::DispatchError> { unreachable!() }
    fn recompute_underlying_amount(a: &A) -> Result<A, sp_runtime::DispatchError> { let (c, r) = lend_rate(a.currency()).ok_or("no lend token")?; Ok(A::new(muldiv(a.amount(), r, ONE, false).ok_or("too much")?, c)) }
    fn underlying_id(l: CurrencyId) -> Result<CurrencyId, sp_runtime::DispatchError> { lend_rate(l).map(|x| x.0).ok_or("no lend token".into()) }
    fn recompute_collateral_amount(a: &A) -> Result<A, sp_runtime::DispatchError> { let l = (1..=3).map(CurrencyId::LendToken).find(|l| lend_rate(*l).unwrap().0 == a.currency()).ok_or("no market")?; Ok(A::new(muldiv(a.amount(), ONE, lend_rate(l).unwrap().1, false).ok_or("too much")?, l)) }
}
/// every conversion between wrapped, two collaterals, an unpriced currency and lend tokens, for all prices and amounts
fn conversions(ctx: &mut Ctx) {
    use currency::CurrencyConversion;
    use frame_support::traits::Hooks;
    let all = [WRAPPED, COL, COL2, Token(INTR), CurrencyId::LendToken(1), CurrencyId::LendToken(2), CurrencyId::LendToken(3), CurrencyId::LendToken(9)];
    let amounts = [0u128, 1, 2, 49, 50, 51, 1_000, 99_999_999, 100_000_001, u64::MAX as u128, i128::MAX as u128, u128::MAX];
    let prices = [0u128, 1, ONE / 3, ONE - 1, ONE, ONE + 1, 5 * ONE / 2, 385_000 * ONE, u128::MAX];
    let mut cases = vec![];
    for p in prices { for q in prices { cases.push((p, q)) } }
    let base = Genesis { vaults: 0, difficulty_check: true, ..Default::default() }.build();
    par(ctx, &cases, |ctx, &(p, q)| {
        let (_, map) = mcstore::isolated(base.clone(), || {
            let mut key = sp_core::twox_128(b"Oracle").to_vec();
            for k in mcstore::keys_with_prefix(&key) { mcstore::kill(&k) }
            key.extend_from_slice(&sp_core::twox_128(b"MaxDelay"));
            mcstore::put(&key, &codec::Encode::encode(&10u64));
            Timestamp::set_timestamp(100);
            Oracle::insert_authorized_oracle(root(), 5, Default::default()).unwrap();
            Oracle::feed_values(signed(5), vec![(oracle::OracleKey::ExchangeRate(COL), FixedU128::from_inner(p)), (oracle::OracleKey::ExchangeRate(COL2), FixedU128::from_inner(q))]).unwrap();
            Oracle::on_initialize(1);
        });
        mcstore::isolated(map, || {
            let price = |c: CurrencyId| match c { COL => Some(p), COL2 => Some(q), _ => None };
            let to_btc = |x: u128, c: CurrencyId| if c == WRAPPED { Some(x) } else { let r = price(c)?; if x == 0 { Some(0) } else { muldiv(x, ONE, r, false) } };
            let from_btc = |x: u128, c: CurrencyId| if c == WRAPPED { Some(x) } else { muldiv(x, price(c)?, ONE, false) };
            let plain = |x: u128, c: CurrencyId, d: CurrencyId| if c == d { Some(x) } else { from_btc(to_btc(x, c)?, d) };
            for x in amounts { for c in all { for d in all {
                let want = (|| {
                    let to = match d { CurrencyId::LendToken(_) => lend_rate(d)?.0, _ => d };
                    let (from, y) = match c { CurrencyId::LendToken(_) => { let (u, r) = lend_rate(c)?; (u, muldiv(x, r, ONE, false)?) } _ => (c, x) };
                    let z = plain(y, from, to)?;
                    match d { CurrencyId::LendToken(_) => muldiv(z, ONE, lend_rate(d)?.1, false), _ => Some(z) }
                })();
                let got = guard(|| currency::CurrencyConvert::<Test, Oracle, Lend>::convert(&A::new(x, c), d).ok().map(|y| (y.amount(), y.currency())));
                ctx.case(1);
                ctx.outcome(if want.is_some() { "converted" } else { "not converted" });
                // converting a lend token to itself may also be the identity
                if got != Ok(want.map(|y| (y, d))) && !(c == d && got == Ok(Some((x, d)))) { ctx.fail("convert", format!("{} {:?} at prices {} and {} are converted to {:?}, expected {:?} {:?}", x, c, p, q, got, want, d), vec![format!("{} {:?} {:?}", x, c, d)]) }
                // the method of amounts uses the runtime's conversion
                if !c.is_lend_token() && !d.is_lend_token() {
                    let got = guard(|| A::new(x, c).convert_to(d).ok().map(|y| (y.amount(), y.currency())));
                    ctx.case(1);
                    if got != Ok(want.map(|y| (y, d))) { ctx.fail("convert-to", format!("{} {:?} at prices {} and {} are converted to {:?}, expected {:?} {:?}", x, c, p, q, got, want, d), vec![format!("{} {:?} {:?}", x, c, d)]) }
                }
            } } }
        });
    });
    ctx.bound(format!("conversions of {} amounts between all pairs of {} currencies at {} pairs of prices", amounts.len(), all.len(), cases.len()));
}
pub fn m01(ctx: &mut Ctx) {
    let v = alphabet(ctx.thorough());
    let v2 = v.clone();
    par(ctx, &v, |ctx, &x| {
        single(ctx, x);
        for y in &v2 { pair(ctx, x, *y) }
    });
    ctx.bound(format!("all pairs of {} operands at the edges of every representation", v.len()));
    // every small pair
    let small: Vec<u128> = (0..ctx.pick(60, 300)).collect();
    par(ctx, &small, |ctx, &x| for y in &small { pair(ctx, x * ONE / 7, *y * ONE / 3); pair(ctx, x, *y) });
    balances(ctx);
    conversions(ctx);
    ctx.sample("checked_mul(3 wei, 0.5) = 1; ratio(1, 3) = 0.333..., amounts in different currencies are refused");
}
