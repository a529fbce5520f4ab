//! V09: the reward pallet under every bounded history of stake changes, distributions and withdrawals, in lock step
//! with an exact rational model (each distribution is shared by the stakes at that time, fractions below one unit are
//! dropped when paid).
use kit::{q::*, System as Machine, *};
use mcstore::Map;
use rt::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Deposit(usize, usize, u128), Withdraw(usize, usize, u128), Set(usize, usize, u128), WithdrawAll(usize, usize),
    Distribute(usize, usize, u128), Claim(usize, usize, usize),
}
const CURS: [CurrencyId; 2] = [WRAPPED, NATIVE];
fn pool(p: usize) -> CurrencyId { [COL, COL2][p] }
fn staker(s: usize) -> Vid { vid(10 + s as u128) }

#[derive(Clone, Debug, Default)]
struct Model {
    stake: BTreeMap<(usize, usize), u128>,
    acc: BTreeMap<(usize, usize, usize), Q>, // currency, pool, staker
    total_rewards: BTreeMap<usize, u128>,
    distributed: [u128; 2],
    paid: [u128; 2],
    n: i128,
    big: u128, // the largest total stake seen
}
pub struct Sys { pools: usize, stakers: usize, curs: usize, dep: Vec<u128>, set: Vec<u128>, dist: Vec<u128> }
#[derive(Clone)]
pub struct St { map: Map, m: Model }
rt::rewards_api!(P, VaultRewards, CurrencyId, Vid);

impl Sys {
    fn tol(&self, m: &Model) -> Q {
        let big = m.big;
        // every distribution loses less than one 10^-18 per unit of stake, every stake change less than 10^-18
        qu(big + 2) * qf(2 * (m.n + 2), 1_000_000_000_000_000_000)
    }
    fn check(&self, m: &Model) -> Result<(), (String, String)> {
        let tol = self.tol(m);
        for p in 0..self.pools {
            let mut total = 0;
            for s in 0..self.stakers {
                let want = m.stake.get(&(p, s)).copied().unwrap_or(0);
                total += want;
                let got: Balance = P::get_stake(&pool(p), &staker(s)).unwrap();
                if got != want { return Err(("stake".into(), format!("stake of {} in pool {} is {}, specification {}", s, p, got, want))) }
            }
            let got: Balance = P::get_total_stake(&pool(p)).unwrap();
            if got != total { return Err(("total-stake".into(), format!("total stake of pool {} is {}, sum of stakes {}", p, got, total))) }
        }
        for c in 0..self.curs {
            let mut claims = 0u128;
            for p in 0..self.pools { for s in 0..self.stakers {
                let exact = m.acc.get(&(c, p, s)).cloned().unwrap_or(zero());
                let got: Balance = P::compute_reward(&pool(p), &staker(s), CURS[c]).map_err(|e| ("compute-fails".to_string(), format!("compute_reward of {} fails: {:?}", s, e)))?;
                claims += got;
                let lo = floor(&(&exact - &tol)).max(0);
                let hi = floor(&(&exact + &tol));
                if (got as i128) < lo || got as i128 > hi {
                    return Err(("share".into(), format!("reward of staker {} in pool {} currency {} is {}, its pro-rata share is {} (~{:.6})", s, p, c, got, exact, f(&exact))));
                }
            } }
            if claims + m.paid[c] > m.distributed[c] {
                return Err(("overpay".into(), format!("claims {} + paid {} exceed the {} distributed in currency {}", claims, m.paid[c], m.distributed[c], c)));
            }
            let got = reward::Pallet::<Test, VaultRewardsInstance>::get_total_rewards(CURS[c]).unwrap();
            let want = (m.distributed[c] - m.paid[c]) as i128;
            if got != want { return Err(("total-rewards".into(), format!("total rewards of currency {} are {}, distributed minus paid is {}", c, got, want))) }
        }
        Ok(())
    }
}

impl Machine for Sys {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { vec![("empty".into(), St { map: Map::new(), m: Model::default() })] }
    fn key(&self, s: &St) -> u128 {
        let a = mcstore::isolated(s.map.clone(), || mcstore::fingerprint(|_| true)).0;
        a ^ fp(format!("{:?}{:?}{:?}{:?}", s.m.stake, s.m.acc, s.m.distributed, s.m.paid).as_bytes()).rotate_left(1)
    }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![];
        for p in 0..self.pools {
            for i in 0..self.stakers {
                for a in &self.dep { v.push(Op::Deposit(p, i, *a)); }
                let st = s.m.stake.get(&(p, i)).copied().unwrap_or(0);
                for a in &self.dep { v.push(Op::Withdraw(p, i, *a)); }
                if st > 0 { v.push(Op::WithdrawAll(p, i)); }
                for a in &self.set { v.push(Op::Set(p, i, *a)); }
                for c in 0..self.curs { if s.m.distributed[c] > 0 { v.push(Op::Claim(p, i, c)); } }
            }
            for c in 0..self.curs { for a in &self.dist { v.push(Op::Distribute(p, c, *a)); } }
        }
        v
    }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut m = s.m.clone();
        m.n += 1;
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<(Model, String), (String, String)> {
            let before = mcstore::fingerprint(|_| true);
            let stake = |m: &Model, p, i| m.stake.get(&(p, i)).copied().unwrap_or(0);
            let label;
            let total = |m: &Model, p: usize| (0..self.stakers).map(|i| stake(m, p, i)).sum::<u128>();
            match op {
                Op::Deposit(p, i, a) => {
                    tx(|| P::deposit_stake(&pool(*p), &staker(*i), *a)).map_err(|e| ("deposit-fails".to_string(), format!("deposit fails: {:?}", e)))?;
                    *m.stake.entry((*p, *i)).or_default() += a;
                    label = "deposit";
                }
                Op::Withdraw(p, i, a) => {
                    let r = tx(|| P::withdraw_stake(&pool(*p), &staker(*i), *a));
                    let ok = *a <= stake(&m, *p, *i);
                    if r.is_ok() != ok { return Err(("withdraw-acceptance".into(), format!("withdrawing {} of a stake of {} returned {:?}", a, stake(&m, *p, *i), r))) }
                    if ok { *m.stake.get_mut(&(*p, *i)).unwrap() -= a; label = "withdraw" } else { label = "withdraw refused" }
                }
                Op::WithdrawAll(p, i) => {
                    let r: Result<Balance, _> = tx(|| P::withdraw_all_stake(&pool(*p), &staker(*i)));
                    if r != Ok(stake(&m, *p, *i)) { return Err(("withdraw-all".into(), format!("withdraw_all of {} returned {:?}", stake(&m, *p, *i), r))) }
                    m.stake.insert((*p, *i), 0);
                    label = "withdraw all";
                }
                Op::Set(p, i, a) => {
                    tx(|| P::set_stake(&pool(*p), &staker(*i), *a)).map_err(|e| ("set-fails".to_string(), format!("set_stake fails: {:?}", e)))?;
                    m.stake.insert((*p, *i), *a);
                    label = "set";
                }
                Op::Distribute(p, c, a) => {
                    let t = total(&m, *p);
                    let r = tx(|| P::distribute_reward(&pool(*p), CURS[*c], *a));
                    if r.is_ok() != (t > 0) { return Err(("distribute-acceptance".into(), format!("distributing to a pool with total stake {} returned {:?}", t, r))) }
                    if t > 0 {
                        for i in 0..self.stakers {
                            let add = qu(*a) * qu(stake(&m, *p, i)) / qu(t);
                            *m.acc.entry((*c, *p, i)).or_insert(zero()) += add;
                        }
                        m.distributed[*c] += a;
                        label = "distribute"
                    } else { label = "distribute refused" }
                }
                Op::Claim(p, i, c) => {
                    let want: Balance = P::compute_reward(&pool(*p), &staker(*i), CURS[*c]).unwrap();
                    let got: Balance = tx(|| P::withdraw_reward(&pool(*p), &staker(*i), CURS[*c])).map_err(|e| ("claim-fails".to_string(), format!("withdraw_reward fails: {:?}", e)))?;
                    if got != want { return Err(("claim-amount".into(), format!("withdraw_reward paid {}, compute_reward announced {}", got, want))) }
                    m.paid[*c] += got;
                    m.acc.insert((*c, *p, *i), zero());
                    label = if got > 0 { "claim" } else { "claim nothing" };
                }
            }
            if label.ends_with("refused") && mcstore::fingerprint(|_| true) != before { return Err(("refused-changes".into(), "a refused operation changed the state".into())) }
            m.big = m.big.max((0..self.pools).map(|p| total(&m, p)).max().unwrap_or(0));
            m.acc.retain(|_, v| v != &zero());
            self.check(&m)?;
            Ok((m, label.to_string()))
        });
        mcstore::clear_events();
        r.map(|(m, l)| (St { map, m }, l))
    }
}

pub fn v09(ctx: &mut Ctx) {
    ctx.assume("the pallet is driven through the RewardsApi trait the other pallets use; stakes are non-negative integers below 10^19");
    ctx.bound(format!("pool histories: one pool, 3 stakers, amounts 2/5, set 0/3, distributions 1/10, depth {}", ctx.pick(6, 7)));
    bfs(ctx, &Sys { pools: 1, stakers: 3, curs: 1, dep: vec![2, 5], set: vec![3], dist: vec![1, 10] }, ctx.pick(6, 7), ctx.pick(600_000, 5_000_000));
    ctx.bound(format!("pool histories: two pools, 2 stakers each, 2 currencies, amounts 3, set 0/7, distribution 10, depth {}", ctx.pick(6, 7)));
    bfs(ctx, &Sys { pools: 2, stakers: 2, curs: 2, dep: vec![3], set: vec![7], dist: vec![10] }, ctx.pick(6, 7), ctx.pick(600_000, 5_000_000));
    let big = vec![1_000_000_000_000_007, 3_000_000_000_000_000_001];
    ctx.bound(format!("pool histories: one pool, 2 stakers, stakes around 10^15 and 3*10^18, distributions 1/10^12+1, depth {}", ctx.pick(7, 8)));
    bfs(ctx, &Sys { pools: 1, stakers: 2, curs: 1, dep: big, set: vec![], dist: vec![1, 1_000_000_000_001] }, ctx.pick(7, 8), ctx.pick(600_000, 5_000_000));
    // the bound on the number of reward currencies of a pool
    let (r, _) = mcstore::isolated(Map::new(), || {
        P::deposit_stake(&COL, &staker(0), 10u128).unwrap();
        (0..12u32).map(|i| tx(|| P::distribute_reward(&COL, CurrencyId::ForeignAsset(i), 10u128)).is_ok()).collect::<Vec<_>>()
    });
    ctx.case(12);
    let want: Vec<bool> = (0..12).map(|i| i < 10).collect();
    ctx.eq("max-currencies", || "distributing in twelve currencies to one pool".into(), &r, &want);
}
