//! L01 to L04: every history of lending operations over two active markets and a pending one against the reference ledger.
use crate::model::*;
use crate::soc::System;
use crate::soc::*;
use kit::{System as Machine, *};
use loans::{InterestRateModel, Market, MarketState};
use mcstore::Map;
use orml_traits::{MultiCurrency, MultiReservableCurrency};

pub const M: [CurrencyId; MARKETS] = [Token(DOT), Token(IBTC), Token(KSM)];
pub const L: [CurrencyId; MARKETS] = [LendToken(1), LendToken(2), LendToken(3)];
const START: u64 = 1_000_000;
pub fn account(u: usize) -> AccountId { match u { 0..=2 => u as u128 + 1, INC => Loans::incentive_reward_account_id(), POOL => Loans::account_id(), _ => 9 } }
fn fx(x: u128) -> Rate { Rate::from_inner(x) }
fn ppm(x: u128) -> Ratio { Ratio::from_parts(x as u32) }
pub fn rate_model(c: &Curve) -> InterestRateModel { match *c { Curve::Jump { base, jump, full, at } => InterestRateModel::new_jump_model(fx(base), fx(jump), fx(full), ppm(at)), Curve::Power { base } => InterestRateModel::new_curve_model(fx(base)) } }
pub fn market(k: &Mk, m: usize) -> Market<Balance> {
    Market { collateral_factor: ppm(k.cf), liquidation_threshold: ppm(k.lt), reserve_factor: ppm(k.rf), close_factor: ppm(k.close), liquidate_incentive: fx(k.inc), liquidate_incentive_reserved_factor: ppm(k.incres), rate_model: rate_model(&k.curve), state: MarketState::Pending, supply_cap: k.scap, borrow_cap: k.bcap, lend_token_id: L[m] }
}
#[derive(Clone, Debug)]
pub struct St { map: Map, pub x: Model }
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Mint(usize, usize, u128), Redeem(usize, usize, u128), RedeemAll(usize, usize), Borrow(usize, usize, u128), Repay(usize, usize, u128), RepayAll(usize, usize), Deposit(usize, usize), Withdraw(usize, usize),
    Liquidate(usize, usize, usize, u128, usize), AddReserves(usize, u128), ReduceReserves(usize, u128), ReduceIncentive(usize, u128), Transfer(usize, usize, usize, u128), Donate(usize, u128), Lock(usize, usize, u128), Unlock(usize, usize, u128),
    Time(u64), Block(u64), Price(usize, Option<(u128, u128)>), Speed(usize, Option<u128>, Option<u128>), Claim(usize), ClaimMarket(usize, usize), Fund(u128), Activate(usize), Curved(usize, Curve), Update(usize, &'static str, u128), Impostor,
}
use Op::*;
impl Op {
    fn root(&self) -> bool { matches!(self, AddReserves(..) | ReduceReserves(..) | ReduceIncentive(..) | Speed(..) | Activate(_) | Curved(..) | Update(..)) }
    fn call(&self, o: RuntimeOrigin) -> Result<(), String> {
        let e = |r: frame_support::dispatch::DispatchResultWithPostInfo| r.map(|_| ()).map_err(|e| err_name(&e));
        match *self {
            Mint(_, m, x) => e(Loans::mint(o, M[m], x)),
            Redeem(_, m, x) => e(Loans::redeem(o, M[m], x)),
            RedeemAll(_, m) => e(Loans::redeem_all(o, M[m])),
            Borrow(_, m, x) => e(Loans::borrow(o, M[m], x)),
            Repay(_, m, x) => e(Loans::repay_borrow(o, M[m], x)),
            RepayAll(_, m) => e(Loans::repay_borrow_all(o, M[m])),
            Deposit(_, m) => e(Loans::deposit_all_collateral(o, M[m])),
            Withdraw(_, m) => e(Loans::withdraw_all_collateral(o, M[m])),
            Liquidate(_, b, m, x, c) => e(Loans::liquidate_borrow(o, account(b), M[m], x, M[c])),
            AddReserves(m, x) => e(Loans::add_reserves(o, account(2), M[m], x)),
            ReduceReserves(m, x) => e(Loans::reduce_reserves(o, account(TREASURY), M[m], x)),
            ReduceIncentive(m, x) => e(Loans::reduce_incentive_reserves(o, account(TREASURY), M[m], x)),
            Transfer(_, to, m, x) => tx(|| <Tokens as MultiCurrency<_>>::transfer(L[m], &frame_system::ensure_signed(o).unwrap(), &account(to), x)).map_err(|e| err_name(&e)),
            Donate(m, x) => tx(|| <Tokens as MultiCurrency<_>>::transfer(M[m], &account(2), &account(POOL), x)).map_err(|e| err_name(&e)),
            Lock(u, m, x) => tx(|| <Tokens as MultiReservableCurrency<_>>::reserve(L[m], &account(u), x)).map_err(|e| err_name(&e)),
            Unlock(u, m, x) => { <Tokens as MultiReservableCurrency<_>>::unreserve(L[m], &account(u), x); Ok(()) }
            Speed(m, s, b) => e(Loans::update_market_reward_speed(o, M[m], s, b)),
            Claim(_) => e(Loans::claim_reward(o)),
            ClaimMarket(_, m) => e(Loans::claim_reward_for_market(o, M[m])),
            Fund(x) => e(Loans::add_reward(o, x)),
            Activate(m) => e(Loans::activate_market(o, M[m])),
            Curved(m, c) => e(Loans::update_rate_model(o, M[m], rate_model(&c))),
            Update(m, what, x) => {
                let (r, f) = (|w: &str| (w == what).then(|| ppm(x)), |w: &str| (w == what).then_some(x));
                e(Loans::update_market(o, M[m], r("collateral"), r("threshold"), r("reserve"), r("close"), r("kept"), (what == "incentive").then(|| fx(x)), f("supply cap"), f("borrow cap")))
            }
            Time(_) | Block(_) | Price(..) | Impostor => unreachable!(),
        }
    }
    fn user(&self) -> Option<usize> { match *self { Mint(u, ..) | Redeem(u, ..) | RedeemAll(u, _) | Borrow(u, ..) | Repay(u, ..) | RepayAll(u, _) | Deposit(u, _) | Withdraw(u, _) | Liquidate(u, ..) | Transfer(u, ..) | Claim(u) | ClaimMarket(u, _) => Some(u), Fund(_) => Some(2), _ => None } }
    /// what the ledger says: None if refused
    fn run(&self, r: &mut Run) -> Option<()> {
        match *self {
            Mint(u, m, x) => r.mint(u, m, x),
            Redeem(u, m, x) => { if x == 0 { return None } let t = r.to_lend_up(x, m)?; r.redeem(u, m, x, t) }
            RedeemAll(u, m) => { let t = r.n.lend(u, m); let x = r.to_und(t, m)?; r.redeem(u, m, x, t) }
            Borrow(u, m, x) => { if x == 0 { return None } r.borrow(u, m, x) }
            Repay(u, m, x) => { if x == 0 { return None } r.repay(u, m, x) }
            RepayAll(u, m) => { r.active(m)?; r.accrue(m)?; let d = r.n.debt(u, m)?; if d == 0 { return None } r.repay(u, m, d) }
            Deposit(u, m) => { let t = r.n.ac[u].free[m]; if t == 0 || r.n.ac[u].res[m] > 0 { return None } r.deposit(u, m, t) }
            Withdraw(u, m) => { let t = r.n.ac[u].dep[m]; if t == 0 { return None } r.withdraw(u, m, t) }
            Liquidate(l, u, m, x, c) => r.liquidate(l, u, m, x, c),
            AddReserves(m, x) => { r.active(m)?; r.accrue(m)?; if x == 0 { return None } r.n.mv(m, 2, POOL, x)?; r.n.mk[m].reserves += x; Some(()) }
            ReduceReserves(m, x) => { r.active(m)?; r.accrue(m)?; if x == 0 { return None } r.n.mk[m].reserves = r.n.mk[m].reserves.checked_sub(x)?; r.n.mv(m, POOL, TREASURY, x) }
            ReduceIncentive(m, x) => { if x == 0 { return None } r.active(m)?; r.accrue(m)?; let t = r.to_lend_up(x, m)?; r.redeem(INC, m, x, t)?; r.n.mv(m, INC, TREASURY, x) }
            Transfer(u, v, m, x) => r.transfer(u, v, m, x),
            Donate(m, x) => r.n.mv(m, 2, POOL, x),
            Lock(u, m, x) => { let a = &mut r.n.ac[u]; a.free[m] = a.free[m].checked_sub(x)?; a.res[m] += x; Some(()) }
            Unlock(u, m, x) => { let a = &mut r.n.ac[u]; let x = x.min(a.res[m] - a.dep[m]); a.res[m] -= x; a.free[m] += x; Some(()) }
            Speed(m, s, b) => {
                r.active(m)?;
                if let Some(s) = s { if s != r.n.mk[m].s.2 { r.n.upd_s(m); r.n.mk[m].s.2 = s } }
                if let Some(b) = b { if b != r.n.mk[m].b.2 { r.n.upd_b(m); r.n.mk[m].b.2 = b } }
                Some(())
            }
            Claim(u) => { for m in 0..MARKETS { r.n.collect(u, m) } r.n.pay(u) }
            ClaimMarket(u, m) => { r.n.collect(u, m); r.n.pay(u) }
            Fund(x) => { if x == 0 { return None } let a = &mut r.n.ac[2]; a.native = a.native.checked_sub(x)?; r.n.pot += x; Some(()) }
            Activate(m) => { if r.n.mk[m].active { return None } r.n.mk[m].active = true; Some(()) }
            Curved(m, c) => { if !c.valid() { return None } r.n.mk[m].curve = c; Some(()) }
            Update(m, what, x) => {
                let k = &mut r.n.mk[m];
                *match what { "collateral" => &mut k.cf, "threshold" => &mut k.lt, "reserve" => &mut k.rf, "close" => &mut k.close, "kept" => &mut k.incres, "incentive" => &mut k.inc, "supply cap" => &mut k.scap, _ => &mut k.bcap } = x;
                valid(k).then_some(())
            }
            Time(_) | Block(_) | Price(..) | Impostor => unreachable!(),
        }
    }
    fn name(&self) -> String { let s = format!("{:?}", self); s[..s.find('(').unwrap_or(s.len())].to_string() }
}
/// parameters a market may have
pub fn valid(k: &Mk) -> bool { k.cf <= k.lt && k.lt < PPM && k.rf > 0 && k.rf < PPM && k.incres < PPM && k.scap > 0 }
fn seen() -> Seen { let mut s = Seen::default(); for m in 0..MARKETS { s[m] = (Loans::borrow_index(M[m]).into_inner(), Loans::borrow_rate(M[m]).into_inner()) } s }
pub struct Lending { start: Vec<(String, St)>, list: Box<dyn Fn(&St) -> Vec<Op> + Sync>, rewards: bool, status: bool }
impl Lending {
    pub fn new(funds: u128, tune: impl Fn(&mut Model), list: impl Fn(&St) -> Vec<Op> + Sync + 'static) -> Lending {
        let mut x = crate::model::Model::new();
        tune(&mut x);
        let mut tokens = vec![];
        for u in 0..3 { for m in 0..MARKETS { x.ac[u].und[m] = funds; tokens.push((account(u), M[m], funds)) } }
        x.ac[2].native = 1_000_000_000;
        tokens.push((3, NATIVE, 1_000_000_000));
        let (_, map) = mcstore::isolated(genesis(&tokens, x.min), || {
            System::set_block_number(1);
            for m in 0..MARKETS { set_price(M[m], x.mk[m].price); Loans::add_market(root(), M[m], market(&x.mk[m], m)).unwrap(); if x.mk[m].active { Loans::activate_market(root(), M[m]).unwrap() ; } }
            Timestamp::set_timestamp(START * 1000);
        });
        x.now = START;
        Lending { start: vec![("empty markets".into(), St { map, x })], list: Box::new(list), rewards: false, status: false }
    }
    /// also compare what every user can claim
    pub fn rewarded(mut self) -> Self { self.rewards = true; self }
    /// also compare what every market reports about itself
    pub fn reported(mut self) -> Self { self.status = true; self }
    pub fn scenario(&mut self, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        for o in ops { match self.step(&s, o) { Ok((n, l)) => { if std::env::var("VERBOSE").is_ok() || l.starts_with("no ") { eprintln!("{}: {:?} -> {}", name, o, l) } s = n } Err(e) => { eprintln!("scenario {}: {:?}", name, e); break } } }
        self.start.push((name.into(), s));
    }
    pub fn only(&mut self) { self.start.remove(0); }
    pub fn start_map(&self) -> Map { self.start[0].1.map.clone() }
    pub fn starts(&self) -> usize { self.start.len() }
}
impl Machine for Lending {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> { let mut v = (self.list)(s); let mut out: Vec<Op> = vec![]; for o in v.drain(..) { if !out.contains(&o) && !matches!(o, Unlock(u, m, x) if s.x.ac[u].res[m] - s.x.ac[u].dep[m] < x) { out.push(o) } } out }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", s.x).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let name = op.name();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<(Model, String), (String, String)> {
            let e = |k: &str, m: String| Err((k.to_string(), format!("{:?}: {}", op, m)));
            let mut n = s.x.clone();
            let label = match op {
                Time(dt) => { n.now += dt; Timestamp::set_timestamp(n.now * 1000); "time passes".into() }
                Block(k) => { n.blk += k; System::set_block_number(n.blk); "blocks".into() }
                Price(m, p) => { n.mk[*m].price = *p; set_price(M[*m], *p); "price".into() }
                Impostor => {
                    for o in [AddReserves(0, 1), ReduceReserves(0, 1), ReduceIncentive(0, 1), Speed(0, Some(1), None), Activate(2), Curved(0, Curve::Power { base: 0 }), Update(0, "close", 1)] { for origin in [signed(1), RuntimeOrigin::none()] { if tx(|| o.call(origin)).is_ok() { return e("impostor", format!("{:?} accepted", o)) } } }
                    if tx(|| Loans::add_market(signed(1), Token(KINT), Market { lend_token_id: LendToken(9), ..market(&n.mk[0], 0) })).is_ok() || tx(|| Loans::force_update_market(signed(1), M[0], market(&n.mk[0], 0))).is_ok() { return e("impostor", "a market was set by a user".into()) }
                    "impostor".into()
                }
                _ => {
                    let origin = if op.root() { root() } else { op.user().map_or(root(), |u| signed(account(u))) };
                    let got = match guard(|| tx(|| op.call(origin))) { Ok(r) => r, Err(p) => return e(&format!("panic:{}", name), p) };
                    let seen = seen();
                    let mut r = Run { n: n.clone(), seen: &seen, err: None };
                    let want = op.run(&mut r);
                    if let Some(m) = r.err { return e("interest", m) }
                    if got.is_ok() != want.is_some() { return e(&format!("{}:{}", if got.is_ok() { "accepted" } else { "refused" }, name), format!("{:?}; ledger {:?}", got, n)) }
                    if got.is_ok() { let before = n.clone(); n = r.n; if let Err((k, m)) = laws(op, &before, &n, &seen) { return e(&k, m) } }
                    if got.is_ok() { name.clone() } else { format!("no {}: {}", name, got.unwrap_err()) }
                }
            };
            self.compare(&n).map_err(|(k, m)| (k, format!("after {:?} ({}): {}", op, label, m)))?;
            Ok((n, label))
        });
        let (x, label) = r?;
        Ok((St { map, x }, label))
    }
}
impl Lending {
    /// the whole recorded state against the ledger
    fn compare(&self, n: &Model) -> Result<(), (String, String)> {
        let e = |k: &str, m: String| Err((k.to_string(), m));
        for m in 0..MARKETS {
            let k = &n.mk[m];
            let total = (loans::TotalBorrows::<Test>::get(M[m]), loans::TotalReserves::<Test>::get(M[m]), Loans::borrow_index(M[m]).into_inner(), Tokens::total_issuance(L[m]), Loans::last_accrued_interest_time(M[m]));
            if total != (k.borrows, k.reserves, k.index, k.supply, k.last) { return e("market", format!("market {}: borrows, reserves, index, supply and last accrual are {:?}, expected {:?}", m, total, (k.borrows, k.reserves, k.index, k.supply, k.last))) }
            for u in 0..ACCOUNTS {
                let (a, id) = (&n.ac[u], account(u));
                let (t, l) = (Tokens::accounts(id, M[m]), Tokens::accounts(id, L[m]));
                if (t.free, t.reserved) != (a.und[m], 0) { return e("balance", format!("account {} holds {} ({} reserved) of asset {}, expected {}", u, t.free, t.reserved, m, a.und[m])) }
                if (l.free, l.reserved) != (a.free[m], a.res[m]) { return e("lend-tokens", format!("account {} holds {} free and {} reserved lend tokens of market {}, expected {} and {}", u, l.free, l.reserved, m, a.free[m], a.res[m])) }
                let dep = loans::AccountDeposits::<Test>::get(L[m], id);
                if dep != a.dep[m] { return e("deposits", format!("account {} has {} lend tokens of market {} recorded as collateral, expected {}", u, dep, m, a.dep[m])) }
                let debt = Loans::current_borrow_balance(&id, M[m]).map(|d| d.amount()).ok();
                if debt != n.debt(u, m) { return e("debt", format!("account {} owes {:?} of asset {}, expected {:?}", u, debt, m, n.debt(u, m))) }
            }
        }
        for u in 0..3 { let x = Tokens::accounts(account(u), NATIVE).free; if x != n.ac[u].native { return e("reward-paid", format!("account {} holds {} of the reward currency, expected {}", u, x, n.ac[u].native)) } }
        let pot = Tokens::accounts(Loans::reward_account_id(), NATIVE).free;
        if pot != n.pot { return e("reward-pot", format!("the reward account holds {}, expected {}", pot, n.pot)) }
        if self.status {
            for m in 0..MARKETS {
                let mut x = n.clone();
                let got = Loans::get_market_status(M[m]);
                if n.mk[m].last == 0 { continue }
                let mut seen = seen();
                if let Ok(g) = &got { seen[m] = (g.6.into_inner(), g.0.into_inner()) }
                match (x.accrue(m, &seen), got) {
                    (Err(m), _) => return e("status-interest", m),
                    (Ok(None), Err(_)) => (),
                    (Ok(Some(())), Ok((borrow, supply, rate, util, borrows, reserves, index))) => {
                        let k = &x.mk[m];
                        let u = n.util(m).unwrap();
                        let (want, tol) = k.curve.rate(u).unwrap();
                        let back = mul(mul(want, PPM - k.rf, PPM, false).unwrap(), u, PPM, false).unwrap();
                        if (Some(rate.into_inner()), util.deconstruct() as u128, borrows, reserves, index.into_inner()) != (x.rate(m), u, k.borrows, k.reserves, k.index) || borrow.into_inner().abs_diff(want) > tol || supply.into_inner().abs_diff(back) > tol + 4 {
                            return e("status", format!("market {} reports {:?}, expected rates {}, {} and {:?}, utilisation {}, borrows {}, reserves {}, index {}", m, (borrow, supply, rate, util, borrows, reserves, index), want, back, x.rate(m), u, k.borrows, k.reserves, k.index))
                        }
                    }
                    (w, g) => return e("status-refused", format!("market {} reports {:?}, expected {:?}", m, g.is_ok(), w)),
                }
            }
        }
        if self.rewards {
            mcstore::begin();
            let mut bad = None;
            <Tokens as MultiCurrency<_>>::deposit(NATIVE, &Loans::reward_account_id(), 1_000_000_000_000).unwrap();
            for u in 0..3 {
                let before = Tokens::accounts(account(u), NATIVE).free;
                let r = tx(|| Loans::claim_reward(signed(account(u))));
                let got = Tokens::accounts(account(u), NATIVE).free - before;
                if r.is_err() || got != n.pending(u) { bad = Some(format!("account {} can claim {} ({:?}), expected {}", u, got, r.is_ok(), n.pending(u))); break }
            }
            mcstore::rollback();
            if let Some(m) = bad { return e("reward-pending", m) }
        }
        Ok(())
    }
}
/// what must hold whatever the operation computes
fn laws(op: &Op, s: &Model, n: &Model, seen: &Seen) -> Result<(), (String, String)> {
    let e = |k: &str, m: String| Err((k.to_string(), m));
    for m in 0..MARKETS {
        if let (Some(r0), Some(r1)) = (s.raw_rate(m), n.raw_rate(m)) { if s.mk[m].supply > 0 && n.mk[m].supply > 0 && r1 < r0 { return e("rate-fell", format!("the exchange rate of market {} fell from {} to {}", m, r0, r1)) } }
        if n.mk[m].index < s.mk[m].index { return e("index-fell", format!("market {}", m)) }
        let debts: u128 = (0..ACCOUNTS).map(|u| n.debt(u, m).unwrap_or(0)).sum();
        if n.mk[m].borrows > debts || debts - n.mk[m].borrows > 24 { return e("total-borrows", format!("the debts of market {} add up to {}, the total is {}", m, debts, n.mk[m].borrows)) }
    }
    // with interest up to date, nobody's wealth grows through an operation of its own and nobody else's changes
    if let Mint(u, m, _) | Redeem(u, m, _) | RedeemAll(u, m) | Borrow(u, m, _) | Repay(u, m, _) | RepayAll(u, m) | Deposit(u, m) | Withdraw(u, m) = *op {
        let mut pre = s.clone();
        for k in 0..MARKETS { if n.mk[k].last != s.mk[k].last { let _ = pre.accrue(k, seen); } }
        if let Some(r) = pre.raw_rate(m) {
            for v in 0..3 {
                let wealth = |x: &Model| x.ac[v].und[m] as i128 * 1_000_000_000 + mul(x.lend(v, m), r, ONE / 1_000_000_000, false).unwrap() as i128 - x.debt(v, m).unwrap_or(0) as i128 * 1_000_000_000;
                let (w0, w1) = (wealth(&pre), wealth(n));
                if w1 > w0 || v != u && w1 != w0 { return e("wealth", format!("the position of account {} in market {} went from {} to {} billionths", v, m, w0, w1)) }
            }
        }
    }
    if let Borrow(u, ..) | Redeem(u, ..) | RedeemAll(u, _) | Withdraw(u, _) = *op {
        let mut r = Run { n: n.clone(), seen, err: None };
        if let (Some(c), Some(d)) = (r.collateral(u, false), r.n.borrowed(u)) { if d > c + 2 && s.ac[u].dep != n.ac[u].dep || matches!(op, Borrow(..)) && d > c { return e("undercollateralised", format!("account {} has debts worth {} and collateral for {}", u, d, c)) } }
    }
    Ok(())
}
