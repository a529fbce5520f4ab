//! S04: every history of blocks, inflation, block rewards and withdrawals against exact budgets.
use crate::soc::System;
use crate::soc::*;
use frame_support::traits::{Currency, ExistenceRequirement, Get, Hooks};
use kit::{q::*, System as Machine, *};
use mcstore::Map;
use orml_traits::MultiCurrency;
use reward::RewardsApi;

const WRAPPED: CurrencyId = Token(IBTC);
#[derive(Clone)]
pub struct St {
    map: Map, h: u64, start: Option<u64>, rate: u128, issuance: u128,
    /// supply account, vault annuity, escrow annuity, treasury, fee pool, stakers 1 and 2
    bal: [u128; 7],
    /// escrow and vault annuity
    rpb: [u128; 2], rpw: [Option<u128>; 2], wrapped: u128, stake: [u128; 2], claim: [Q; 2], recounted: bool, since: u64, /** withdrawals, each of which drops a fraction of a unit */ drawn: [u128; 2],
}
#[derive(Clone, Debug)]
pub enum Op { Block, Stake(usize, u128), Unstake(usize, u128), Withdraw(usize), VaultWithdraw, Update(usize), PerWrapped(usize, u128), Mint(u128), Start(u64, u128), Donate(usize, u128), ByUser(u8) }
pub struct Budgets { start: Vec<(String, St)>, full: bool }
fn accounts() -> [AccountId; 7] { [Supply::account_id(), VaultAnnuity::account_id(), EscrowAnnuity::account_id(), TreasuryAccountId::get(), FEE_ACCOUNT, 1, 2] }
const ESC: usize = 2;
const VLT: usize = 1;
impl Budgets {
    fn new(full: bool, esc: u128, vlt: u128) -> Budgets {
        let bal = [50, vlt, esc, 0, 7, 100, 100];
        let g = genesis(&[(9, 10_000)], &[(9, WRAPPED, 3)]);
        let (_, map) = mcstore::isolated(g, || {
            System::set_block_number(1);
            for (i, a) in accounts().iter().enumerate() { if bal[i] > 0 { let _ = Balances::deposit_creating(a, bal[i]); } }
            <VaultCapacity as RewardsApi<(), CurrencyId, u128>>::deposit_stake(&(), &NATIVE, 10).unwrap();
            VaultAnnuity::update_reward_per_block();
            EscrowAnnuity::update_reward_per_block();
        });
        let s = St { map, h: 1, start: None, rate: 0, issuance: 10_000 + bal.iter().sum::<u128>(), bal, rpb: [esc / EMISSION as u128, vlt / EMISSION as u128], rpw: [None; 2], wrapped: 3, stake: [0; 2], claim: [zero(), zero()], recounted: false, since: 0, drawn: [0; 2] };
        Budgets { start: vec![(format!("escrow annuity with {}, vault annuity with {}", esc, vlt), s)], full }
    }
    fn scenario(&mut self, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        for o in ops { match self.step(&s, o) { Ok((n, _)) => s = n, Err(e) => { eprintln!("scenario {}: {:?}", name, e); break } } }
        self.start.push((name.into(), s));
    }
    fn check(&self, s: &St) -> Result<(), (String, String)> {
        let e = |k: &str, m: String| Err((k.to_string(), m));
        for (i, a) in accounts().iter().enumerate() {
            let got = Balances::free_balance(a);
            if got != s.bal[i] { return e(["supply-account", "vault-annuity", "escrow-annuity", "treasury", "fee-pool", "staker", "staker"][i], format!("account {} holds {}, expected {}", i, got, s.bal[i])) }
        }
        if Balances::total_issuance() != s.issuance { return e("issuance", format!("total issuance {}, expected {}", Balances::total_issuance(), s.issuance)) }
        if (EscrowAnnuity::reward_per_block(), VaultAnnuity::reward_per_block()) != (s.rpb[0], s.rpb[1]) { return e("reward-per-block", format!("rewards per block {} and {}, expected {:?}", EscrowAnnuity::reward_per_block(), VaultAnnuity::reward_per_block(), s.rpb)) }
        if (EscrowAnnuity::min_reward_per_block(), VaultAnnuity::min_reward_per_block()) != (self.due(s, 0), self.due(s, 1)) { return e("block-reward", format!("block rewards {} and {}, expected {} and {}", EscrowAnnuity::min_reward_per_block(), VaultAnnuity::min_reward_per_block(), self.due(s, 0), self.due(s, 1))) }
        let mut sum = 0;
        for i in 0..2 {
            let c = <EscrowRewards as RewardsApi<(), AccountId, u128>>::compute_reward(&(), &(i as u128 + 1), NATIVE).map_err(|x| ("compute".to_string(), err_name(&x)))?;
            if qu(c) > s.claim[i] || qu(c) + qu(2 + s.drawn[i]) < s.claim[i] { return e("claim", format!("staker {} can claim {}, its share is {}", i + 1, c, f(&s.claim[i]))) }
            sum += c;
        }
        if sum > s.bal[ESC] { return e(if s.recounted { "overcommit:unclaimed-recounted" } else if s.since > EMISSION { "overcommit:after-period" } else { "overcommit" }, format!("the stakers can claim {}, the annuity holds {}", sum, s.bal[ESC])) }
        Ok(())
    }
    fn due(&self, s: &St, i: usize) -> u128 { s.rpw[i].map_or(s.rpb[i], |w| s.rpb[i].min(w.saturating_mul(s.wrapped))) }
    fn refresh(s: &mut St, i: usize) {
        s.rpb[i] = s.bal[if i == 0 { ESC } else { VLT }] / EMISSION as u128;
        if i == 0 { s.recounted |= s.claim.iter().any(|c| *c > zero()); s.since = 0 }
    }
}
impl Machine for Budgets {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Block];
        for i in 0..2 { v.push(Op::Stake(i, 3)); v.push(Op::Withdraw(i)); if s.stake[i] > 0 { v.push(Op::Unstake(i, 3)) } v.push(Op::Update(i)) }
        v.push(Op::Stake(1, 10));
        v.push(Op::Start(s.h + 1, 100_000_000_000_000_000));
        if self.full {
            v.extend([Op::Unstake(0, 5), Op::VaultWithdraw, Op::Start(s.h, 1), Op::Start(s.h + 2, 25_000_000_000_000_001), Op::Donate(ESC, 13), Op::Donate(VLT, 13), Op::Mint(2), Op::PerWrapped(0, 1), Op::PerWrapped(1, 2), Op::PerWrapped(0, 0), Op::PerWrapped(1, u128::MAX)]);
            v.extend((0..3).map(Op::ByUser));
        }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (s.h, s.start, s.rate, s.issuance, s.bal, s.rpb, s.rpw, s.wrapped, s.stake, &s.claim, (s.recounted, s.since, s.drawn))).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let label = match *op {
                Op::Block => {
                    n.h += 1;
                    System::set_block_number(n.h);
                    Supply::on_initialize(n.h);
                    EscrowAnnuity::on_initialize(n.h);
                    VaultAnnuity::on_initialize(n.h);
                    let mut label = "block";
                    if n.start == Some(n.h) {
                        n.start = Some(n.h + INFLATION_PERIOD);
                        let x = floor(&(qu(n.issuance) * fixedu(n.rate))) as u128;
                        n.issuance += x;
                        n.bal[VLT] += vault_share(x);
                        n.bal[ESC] += escrow_share(x);
                        n.bal[3] += x - vault_share(x) - escrow_share(x);
                        Self::refresh(&mut n, 0);
                        Self::refresh(&mut n, 1);
                        if Supply::last_emission() != x { return Err(("inflation".into(), format!("inflated by {}, expected {}", Supply::last_emission(), x))) }
                        label = "inflation";
                    }
                    if Supply::start_height() != n.start { return Err(("next-inflation".into(), format!("next inflation at {:?}, expected {:?}", Supply::start_height(), n.start))) }
                    n.since += 1;
                    let total: u128 = n.stake.iter().sum();
                    let e = self.due(&n, 0);
                    if total > 0 { for i in 0..2 { n.claim[i] = &n.claim[i] + qu(e) * qu(n.stake[i]) / qu(total) } }
                    let v = self.due(&n, 1);
                    // the provider pays only what is there
                    if n.bal[VLT] > v { n.bal[VLT] -= v; n.bal[4] += v } else if v > 0 { label = "annuity exhausted" }
                    label
                }
                Op::Stake(i, a) => { tx(|| <EscrowRewards as RewardsApi<(), AccountId, u128>>::deposit_stake(&(), &(i as u128 + 1), a)).map_err(|e| ("stake".to_string(), err_name(&e)))?; n.stake[i] += a; "stake" }
                Op::Unstake(i, a) => {
                    let ok = s.stake[i] >= a;
                    let r = tx(|| <EscrowRewards as RewardsApi<(), AccountId, u128>>::withdraw_stake(&(), &(i as u128 + 1), a));
                    if r.is_ok() != ok { return Err(("unstake".into(), format!("{:?}", r))) }
                    if ok { n.stake[i] -= a; "unstake" } else { "no unstake" }
                }
                Op::Withdraw(i) => {
                    let before = Balances::free_balance(&(i as u128 + 1));
                    let r = tx(|| EscrowAnnuity::withdraw_rewards(signed(i as u128 + 1)).map_err(|e| e.error));
                    if let Err(x) = r { return Err(("withdraw".into(), format!("staker {} with a claim of {} is refused: {}", i + 1, f(&s.claim[i]), err_name(&x)))) }
                    let paid = Balances::free_balance(&(i as u128 + 1)).wrapping_sub(before);
                    if qu(paid) > s.claim[i] || qu(paid) + qu(2 + s.drawn[i]) < s.claim[i] { return Err(("paid".into(), format!("staker {} was paid {}, its share is {}", i + 1, paid, f(&s.claim[i])))) }
                    n.bal[ESC] -= paid;
                    n.bal[5 + i] += paid;
                    n.claim[i] = &n.claim[i] - qu(paid);
                    if n.claim[i] > zero() { n.drawn[i] += 1 }
                    // what is left of the claim is rounding: nothing more can be drawn now
                    n.claim[i] = { let left = <EscrowRewards as RewardsApi<(), AccountId, u128>>::compute_reward(&(), &(i as u128 + 1), NATIVE).unwrap_or(9); if left > 0 { return Err(("paid-twice".into(), format!("{} can be claimed after a withdrawal", left))) } n.claim[i].clone() };
                    if paid > 0 { "rewards paid" } else { "nothing to pay" }
                }
                Op::VaultWithdraw => { if tx(|| VaultAnnuity::withdraw_rewards(signed(1)).map_err(|e| e.error)).is_ok() { return Err(("vault-withdraw".into(), "an account withdrew from the vault annuity".into())) } "no withdrawal from the vault annuity" }
                Op::Update(i) => { (if i == 0 { tx(|| EscrowAnnuity::update_rewards(root()).map_err(|e| e.error)) } else { tx(|| VaultAnnuity::update_rewards(root()).map_err(|e| e.error)) }).map_err(|e| ("update".to_string(), err_name(&e)))?; Self::refresh(&mut n, i); "rewards updated" }
                Op::PerWrapped(i, x) => { (if i == 0 { tx(|| EscrowAnnuity::set_reward_per_wrapped(root(), x).map_err(|e| e.error)) } else { tx(|| VaultAnnuity::set_reward_per_wrapped(root(), x).map_err(|e| e.error)) }).map_err(|e| ("per-wrapped".to_string(), err_name(&e)))?; n.rpw[i] = Some(x); "limit per wrapped" }
                Op::Mint(x) => { <Tokens as MultiCurrency<AccountId>>::deposit(WRAPPED, &9, x).unwrap(); n.wrapped += x; "wrapped minted" }
                Op::Start(h, x) => { tx(|| Supply::set_start_height_and_inflation(root(), h, FixedU128::from_inner(x)).map_err(|e| e.error)).map_err(|e| ("start".to_string(), err_name(&e)))?; n.start = Some(h); n.rate = x; "inflation scheduled" }
                Op::Donate(i, x) => { let a = accounts()[i]; <Balances as Currency<AccountId>>::transfer(&9, &a, x, ExistenceRequirement::AllowDeath).unwrap(); n.bal[i] += x; "donation" }
                Op::ByUser(k) => {
                    let r = match k { 0 => tx(|| EscrowAnnuity::update_rewards(signed(1)).map_err(|e| e.error)), 1 => tx(|| VaultAnnuity::set_reward_per_wrapped(signed(1), 1).map_err(|e| e.error)), _ => tx(|| Supply::set_start_height_and_inflation(signed(1), s.h + 1, FixedU128::from(1)).map_err(|e| e.error)) };
                    if r.is_ok() { return Err(("origin".into(), format!("an ordinary account did {:?}", op))) }
                    "refused for users"
                }
            };
            self.check(&n)?;
            Ok(label.into())
        });
        n.map = map;
        Ok((n, r?))
    }
}
pub fn s04(ctx: &mut Ctx) {
    for (full, esc, vlt, d) in [(true, 41, 102, ctx.pick(5, 6)), (false, 40, 3, ctx.pick(7, 8))] {
        let mut m = Budgets::new(full, esc, vlt);
        m.scenario("two stakers and inflation", &[Op::Stake(0, 3), Op::Stake(1, 7), Op::Start(2, 100_000_000_000_000_000), Op::Block, Op::Block]);
        if full { m.scenario("a limit per wrapped token", &[Op::Stake(1, 7), Op::PerWrapped(0, 2), Op::PerWrapped(1, 5), Op::Block]) }
        let n = bfs(ctx, &m, d, 2_000_000);
        ctx.bound(format!("all histories of {} operations from {} starting states ({}), emission period {} and inflation period {} blocks, {} states", d, m.start.len(), if full { "all operations" } else { "without limits and donations" }, EMISSION, INFLATION_PERIOD, n));
    }
    ctx.assume("the reward providers and the inflation handler are copies of the runtime's (the runtime itself cannot be built here)");
}
