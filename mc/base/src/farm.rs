//! X04: every history of schedules, deposits, blocks and claims against exact entitlements.
use crate::soc::System;
use crate::soc::*;
use frame_support::traits::{Get, Hooks};
use kit::{q::*, System as Machine, *};
use mcstore::Map;
use orml_traits::MultiCurrency;
use primitives::LpToken;
use reward::RewardsApi;

const REWARDS: [CurrencyId; 2] = [Token(INTR), Token(KSM)];
fn pools() -> [CurrencyId; 2] { [CurrencyId::LpToken(LpToken::Token(DOT), LpToken::Token(IBTC)), CurrencyId::LpToken(LpToken::Token(IBTC), LpToken::Token(INTR))].map(|mut c| { c.sort(); c }) }
// the two differ within the bytes that fit the 16-byte account ids
/// the same pool written the other way round
fn flipped(c: CurrencyId) -> CurrencyId { match c { CurrencyId::LpToken(a, b) => CurrencyId::LpToken(b, a), x => x } }
const FUNDS: u128 = 60;
#[derive(Clone, Default, Debug, PartialEq)]
struct Sched { count: u32, per: u128, /** funded and neither distributed nor refunded */ unspent: u128 }
#[derive(Clone)]
pub struct St {
    map: Map, h: u64, treasury: [u128; 2],
    /// [pool][reward]
    sched: [[Option<Sched>; 2]; 2], acc: [[u128; 2]; 2], seen: [[bool; 2]; 2],
    /// [pool][user], [pool][user][reward]
    stake: [[u128; 2]; 2], lp: [[u128; 2]; 2], claim: [[[Q; 2]; 2]; 2], paid: [[u128; 2]; 2],
    /// claims, each of which drops a fraction of a unit
    drawn: [[[u128; 2]; 2]; 2],
}
#[derive(Clone, Debug)]
pub enum Op { Schedule(usize, usize, u32, u128), Remove(usize, usize), Deposit(usize, usize, u32), Withdraw(usize, usize, u128), Claim(usize, usize, usize), Block, ByUser(bool) }
pub struct Farm { start: Vec<(String, St)>, pools: usize, rewards: usize, amounts: Vec<(u32, u128)>, withdraw: Vec<u128> }
fn bal(c: CurrencyId, a: &AccountId) -> u128 { <Tokens as MultiCurrency<AccountId>>::free_balance(c, a) }
impl Farm {
    fn new(pools_: usize, rewards: usize, amounts: Vec<(u32, u128)>, withdraw: Vec<u128>) -> Farm {
        let lp = [[10, 30], [7, 20]];
        let mut t = vec![];
        for p in 0..2 { for u in 0..2 { t.push((u as u128 + 1, pools()[p], lp[p][u])) } t.push((9, pools()[p], 1000)) }
        for r in REWARDS { t.push((TreasuryAccountId::get(), r, FUNDS)) }
        let map = genesis(&[], &t);
        let (_, map) = mcstore::isolated(map, || System::set_block_number(1));
        let s = St { map, h: 1, treasury: [FUNDS; 2], sched: Default::default(), acc: Default::default(), seen: Default::default(), stake: Default::default(), lp, claim: std::array::from_fn(|_| std::array::from_fn(|_| std::array::from_fn(|_| zero()))), paid: Default::default(), drawn: Default::default() };
        Farm { start: vec![("nothing scheduled".into(), s)], pools: pools_, rewards, amounts, withdraw }
    }
    fn scenario(&mut self, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        for o in ops { match self.step(&s, o) { Ok((n, _)) => s = n, Err(e) => { eprintln!("scenario {}: {:?}", name, e); break } } }
        self.start.push((name.into(), s));
    }
    fn check(&self, s: &St) -> Result<(), (String, String)> {
        let e = |k: &str, m: String| Err((k.to_string(), m));
        for (p, pool) in pools().iter().enumerate() {
            let account = Farming::pool_account_id(pool);
            for (r, rew) in REWARDS.iter().enumerate() {
                if bal(*rew, &account) != s.acc[p][r] { return e("pool-account", format!("pool {} holds {} of reward {}, expected {}", p, bal(*rew, &account), r, s.acc[p][r])) }
                let got = Farming::reward_schedules(pool, rew);
                let want = s.sched[p][r].clone().unwrap_or_default();
                if (got.period_count, got.per_period) != (want.count, want.per) { return e("schedule", format!("schedule of pool {} and reward {} is {} periods of {}, expected {:?}", p, r, got.period_count, got.per_period, want)) }
                if Farming::total_rewards(pool, rew) != want.per * want.count as u128 || Farming::total_rewards(&flipped(*pool), rew) != want.per * want.count as u128 { return e("total-rewards", "the total of the schedule differs".into()) }
                let mut claims = 0;
                for u in 0..2 {
                    let c = <FarmingRewards as RewardsApi<CurrencyId, AccountId, u128>>::compute_reward(pool, &(u as u128 + 1), *rew).map_err(|x| ("compute".to_string(), err_name(&x)))?;
                    if qu(c) > s.claim[p][u][r] || qu(c) + qu(2 + s.drawn[p][u][r]) < s.claim[p][u][r] { return e("claim", format!("user {} can claim {} of reward {} from pool {}, its share is {}", u + 1, c, r, p, f(&s.claim[p][u][r]))) }
                    claims += c;
                }
                // what was promised is there
                if claims + want.per * want.count as u128 > s.acc[p][r] { return e("unfunded", format!("pool {} holds {} of reward {}, but {} can be claimed and {} periods of {} are scheduled", p, s.acc[p][r], r, claims, want.count, want.per)) }
            }
            for u in 0..2 {
                let a = u as u128 + 1;
                let st = <FarmingRewards as RewardsApi<CurrencyId, AccountId, u128>>::get_stake(pool, &a).unwrap_or(u128::MAX);
                let acc = Tokens::accounts(a, *pool);
                if st != s.stake[p][u] || acc.reserved != s.stake[p][u] || acc.free != s.lp[p][u] - s.stake[p][u] { return e("deposit", format!("user {} has {} deposited and {}+{} tokens of pool {}, expected {} of {}", a, st, acc.free, acc.reserved, p, s.stake[p][u], s.lp[p][u])) }
                // withdrawable in full
                if st > 0 { mcstore::begin(); let r = Farming::withdraw(signed(a), *pool, st, 10); mcstore::rollback(); if r.is_err() { return e("not-withdrawable", format!("user {} cannot withdraw its {} from pool {}: {:?}", a, st, p, r)) } }
            }
        }
        for (r, rew) in REWARDS.iter().enumerate() {
            if bal(*rew, &TreasuryAccountId::get()) != s.treasury[r] { return e("treasury", format!("the treasury holds {} of reward {}, expected {}", bal(*rew, &TreasuryAccountId::get()), r, s.treasury[r])) }
            for u in 0..2 { if bal(*rew, &(u as u128 + 1)) != s.paid[u][r] { return e("user", format!("user {} holds {} of reward {}, expected {}", u + 1, bal(*rew, &(u as u128 + 1)), r, s.paid[u][r])) } }
        }
        Ok(())
    }
}
impl Machine for Farm {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Block, Op::ByUser(false), Op::ByUser(true)];
        for p in 0..self.pools {
            for r in 0..self.rewards { for (c, x) in &self.amounts { v.push(Op::Schedule(p, r, *c, *x)) } v.push(Op::Remove(p, r)); for u in 0..2 { v.push(Op::Claim(u, p, r)) } }
            for u in 0..2 { v.push(Op::Deposit(u, p, 10)); for x in &self.withdraw { v.push(Op::Withdraw(u, p, *x)) } v.push(Op::Withdraw(u, p, s.stake[p][u] + 1)) }
            v.push(Op::Deposit(0, p, 0));
        }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (s.h % REWARD_PERIOD, &s.treasury, &s.sched, &s.acc, &s.seen, &s.stake, &s.claim, &s.paid, &s.drawn)).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let judge = |r: Result<(), String>, ok: bool, what: &str| if r.is_ok() == ok { Ok(if ok { what.to_string() } else { format!("no {}", what) }) } else { Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, what), format!("{:?}: {:?}", op, r))) };
            let label = match *op {
                Op::Block => {
                    n.h += 1;
                    System::set_block_number(n.h);
                    Farming::on_initialize(n.h);
                    let mut label = "block";
                    if n.h % REWARD_PERIOD == 0 { for p in 0..2 { for r in 0..2 {
                        let total: u128 = s.stake[p].iter().sum();
                        let Some(c) = n.sched[p][r].as_mut() else { continue };
                        if c.count == 0 { n.sched[p][r] = None; continue }
                        if total == 0 { continue }
                        c.count -= 1;
                        c.unspent -= c.per;
                        n.seen[p][r] = true;
                        for u in 0..2 { n.claim[p][u][r] = &n.claim[p][u][r] + qu(c.per) * qu(s.stake[p][u]) / qu(total) }
                        label = "rewards distributed";
                    } } }
                    label.to_string()
                }
                Op::Schedule(p, r, c, x) => {
                    let res = tx(|| Farming::update_reward_schedule(root(), if c % 2 == 0 { pools()[p] } else { flipped(pools()[p]) }, REWARDS[r], c, x).map_err(|e| err_name(&e)));
                    let ok = s.treasury[r] >= x && s.sched[p][r].clone().unwrap_or_default().count.checked_add(c).is_some();
                    // rewards without a period to distribute them in may be refused
                    let nowhere = s.sched[p][r].clone().unwrap_or_default().count.checked_add(c) == Some(0);
                    let ok = if nowhere { ok && res.is_ok() } else { ok };
                    let l = judge(res, ok, "schedule")?;
                    if ok {
                        n.treasury[r] -= x;
                        n.acc[p][r] += x;
                        let o = s.sched[p][r].clone().unwrap_or_default();
                        let got = Farming::reward_schedules(pools()[p], REWARDS[r]);
                        let count = o.count + c;
                        // the old remaining and the new rewards over the new total duration; less than one unit per old period may be lost by rounding
                        let (lo, hi) = if count == 0 { (0, 0) } else { ((o.per * o.count as u128 + x) / count as u128, (o.unspent + x) / count as u128) };
                        if got.period_count != count || got.per_period < lo || got.per_period > hi { return Err(("rate".into(), format!("{:?} on {:?} gives {} periods of {}, expected {} of {} to {}", op, o, got.period_count, got.per_period, count, lo, hi))) }
                        n.sched[p][r] = Some(Sched { count, per: got.per_period, unspent: o.unspent + x });
                    }
                    l
                }
                Op::Remove(p, r) => {
                    let before = bal(REWARDS[r], &TreasuryAccountId::get());
                    let res = tx(|| Farming::remove_reward_schedule(root(), if s.h % 2 == 0 { pools()[p] } else { flipped(pools()[p]) }, REWARDS[r]).map(|_| ()).map_err(|e| err_name(&e.error)));
                    let l = judge(res, true, "cancelled schedule")?;
                    let got = bal(REWARDS[r], &TreasuryAccountId::get()) - before;
                    let o = s.sched[p][r].clone().unwrap_or_default();
                    // leftovers below one unit per period may remain, and leftovers of earlier schedules may be swept
                    let claims: Q = (0..2).map(|u| s.claim[p][u][r].clone()).fold(zero(), |a, b| a + b);
                    if got < o.per * o.count as u128 || qu(got) > qu(s.acc[p][r]) - claims { return Err(("refund".into(), format!("cancelling {:?} refunds {} of the {} in the pool, {} of which can be claimed", o, got, s.acc[p][r], f(&(0..2).map(|u| s.claim[p][u][r].clone()).fold(zero(), |a, b| a + b))))) }
                    n.treasury[r] += got;
                    n.acc[p][r] -= got;
                    n.sched[p][r] = None;
                    l
                }
                Op::Deposit(u, p, len) => {
                    let ok = len as usize >= s.seen[p].iter().filter(|x| **x).count();
                    let l = judge(tx(|| Farming::deposit(signed(u as u128 + 1), pools()[p], len).map_err(|e| err_name(&e))), ok, "deposit")?;
                    if ok { n.stake[p][u] = s.lp[p][u] }
                    l
                }
                Op::Withdraw(u, p, x) => {
                    let ok = x <= s.stake[p][u];
                    let l = judge(tx(|| Farming::withdraw(signed(u as u128 + 1), flipped(pools()[p]), x, 10).map_err(|e| err_name(&e))), ok, "withdrawal")?;
                    if ok { n.stake[p][u] -= x }
                    l
                }
                Op::Claim(u, p, r) => {
                    let a = u as u128 + 1;
                    let before = bal(REWARDS[r], &a);
                    let l = judge(tx(|| Farming::claim(signed(a), if u == 0 { pools()[p] } else { flipped(pools()[p]) }, REWARDS[r]).map_err(|e| err_name(&e))), true, "claim")?;
                    let got = bal(REWARDS[r], &a) - before;
                    let c = &s.claim[p][u][r];
                    if qu(got) > *c || qu(got) + qu(2 + s.drawn[p][u][r]) < *c { return Err(("paid".into(), format!("user {} was paid {}, its share is {}", a, got, f(c)))) }
                    if <FarmingRewards as RewardsApi<CurrencyId, AccountId, u128>>::compute_reward(&pools()[p], &a, REWARDS[r]).unwrap_or(1) != 0 { return Err(("paid-twice".into(), "more can be claimed after a claim".into())) }
                    n.claim[p][u][r] = c - qu(got);
                    if n.claim[p][u][r] > zero() { n.drawn[p][u][r] += 1 }
                    n.acc[p][r] -= got;
                    n.paid[u][r] += got;
                    if got > 0 { l } else { "nothing to claim".into() }
                }
                Op::ByUser(k) => {
                    let r = if k { tx(|| Farming::remove_reward_schedule(signed(1), pools()[0], REWARDS[0]).map(|_| ()).map_err(|e| err_name(&e.error))) } else { tx(|| Farming::update_reward_schedule(signed(1), pools()[0], REWARDS[0], 1, 1).map_err(|e| err_name(&e))) };
                    judge(r, false, "administration by a user")?
                }
            };
            self.check(&n)?;
            Ok(label)
        });
        n.map = map;
        Ok((n, r?))
    }
}
pub fn x04(ctx: &mut Ctx) {
    let mut one = Farm::new(1, 1, vec![(2, 10), (3, 10), (0, 4), (1, 61)], vec![3, 10]);
    one.scenario("a running schedule with two depositors", &[Op::Schedule(0, 0, 3, 31), Op::Deposit(0, 0, 0), Op::Block, Op::Deposit(1, 0, 1), Op::Block]);
    let mut two = Farm::new(2, 2, vec![(2, 9)], vec![4]);
    two.scenario("both pools and rewards", &[Op::Schedule(0, 0, 2, 10), Op::Schedule(0, 1, 3, 20), Op::Schedule(1, 0, 1, 5), Op::Deposit(0, 0, 0), Op::Deposit(1, 1, 0), Op::Block]);
    for (what, m, d) in [("one pool", one, ctx.pick(6, 9)), ("two pools and two rewards", two, ctx.pick(5, 7))] {
        let n = bfs(ctx, &m, d, 2_000_000);
        ctx.bound(format!("{}: all histories of {} operations from {} starting states, schedules {:?} (periods, amount), reward period {} blocks, {} states", what, d, m.start.len(), m.amounts, REWARD_PERIOD, n));
    }
}
