//! V08: the staking pallet (collateral pool of one vault with nominators) under every bounded history of deposits,
//! withdrawals, slashes, reward distributions and forced refunds.
use kit::{q::*, System as Machine, *};
use mcstore::Map;
use rt::*;
use staking::StakingApi;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Deposit(usize, u128), Withdraw(usize, u128, Option<u64>), WithdrawAll(usize, Option<u64>), Slash(u128), SlashAll, Distribute(u128), Claim(usize, Option<u64>), Refund }

/// One pool (one nonce).  A slash of x takes x * nominal_i / sum(nominal) from every staker, where the nominal stake
/// is the staker's stake after its last own operation.
#[derive(Clone, Debug, Default)]
struct Pool {
    nominal: BTreeMap<usize, Q>,
    cur: BTreeMap<usize, Q>,
    rpt: Option<Q>,
    rpt_err: Option<Q>, // bound on the fixed-point error of the reward per token
    tally: BTreeMap<usize, Q>,
    ideal: BTreeMap<usize, Q>, // what a staker earned and did not claim, never changed by a slash
    distributed: u128,
    paid: u128,
    full: bool,    // the whole stake was slashed at some point
    dust: bool,    // only fixed-point dust is left: what follows is rounding noise, not explored further
    skewed: bool,  // a slash hit stakers whose nominal and current stake were in different ratios
}
impl Pool {
    fn cur(&self, i: usize) -> Q { self.cur.get(&i).cloned().unwrap_or(zero()) }
    fn nom(&self, i: usize) -> Q { self.nominal.get(&i).cloned().unwrap_or(zero()) }
    fn total(&self) -> Q { self.cur.values().fold(zero(), |a, b| a + b) }
    fn nominals(&self) -> Q { self.nominal.values().fold(zero(), |a, b| a + b) }
    fn rpt(&self) -> Q { self.rpt.clone().unwrap_or(zero()) }
    /// how far a computed reward of staker i may be from the exact one because of 18-decimal rounding
    fn reward_tol(&self, i: usize, tol: &Q) -> Q {
        let e = self.rpt_err.clone().unwrap_or(zero());
        abs(&self.cur(i)) * &e + tol * (self.rpt() + &e + one()) + tol
    }
    fn claim(&self, i: usize) -> Q { kit::q::max(&self.cur(i), &zero()).clone() * self.rpt() - self.tally.get(&i).cloned().unwrap_or(zero()) }
    fn touch(&mut self, i: usize, delta: Q) {
        let c = self.cur(i) + &delta;
        let r = self.rpt();
        *self.tally.entry(i).or_insert(zero()) += r * delta;
        self.cur.insert(i, c.clone());
        self.nominal.insert(i, c);
    }
    /// a staker whose stake the nominal rule has driven below zero
    fn negative(&self) -> bool { self.cur.values().any(|x| x < &zero()) }
}
#[derive(Clone, Debug, Default)]
struct Model { pools: Vec<Pool>, n: i128, big: u128 }
#[derive(Clone)]
pub struct St { map: Map, m: Model, stop: bool }
pub struct Sys { stakers: usize, dep: Vec<u128>, slash: Vec<u128>, dist: Vec<u128>, refunds: usize }
rt::rewards_api!(P, VaultStaking, Id, AccountId);
type Id = (Option<u64>, Vid);
fn v() -> Vid { vid(10) }
fn who(i: usize) -> u128 { 10 + i as u128 }
fn id(n: Option<u64>) -> Id { (n, v()) }

impl Sys {
    fn tol(&self, m: &Model) -> Q { qu(m.big + 2) * qf(4 * (m.n + 2), 1_000_000_000_000_000_000) }
    fn check(&self, m: &Model) -> Result<(), (String, String)> {
        let tol = self.tol(m);
        for (n, p) in m.pools.iter().enumerate() {
            if p.dust { continue }
            let nonce = Some(n as u64);
            let mut sum = 0i128;
            let mut claims = 0i128;
            let mut slack = zero();
            let mut clipped = false;
            for i in 0..self.stakers {
                let got: Balance = P::get_stake(&id(nonce), &who(i)).map_err(|e| ("stake-fails".to_string(), format!("get_stake fails: {:?}", e)))?;
                sum += got as i128;
                let exact = p.cur(i);
                if (got as i128) < floor(&(&exact - &tol)).max(0) || got as i128 > floor(&(&exact + &tol)).max(0) {
                    return Err(("stake".into(), format!("stake of {} in pool {} is {}, specification {:.6}", i, n, got, f(&exact))));
                }
                if p.negative() { continue }
                let got: Balance = P::compute_reward(&id(nonce), &who(i), WRAPPED).map_err(|e| ("reward-fails".to_string(), format!("compute_reward fails: {:?}", e)))?;
                claims += got as i128;
                let exact = p.claim(i);
                let rtol = p.reward_tol(i, &tol);
                slack += &rtol;
                clipped |= exact < -rtol.clone();
                if (got as i128) < floor(&(&exact - &rtol)).max(0) || got as i128 > floor(&(&exact + &rtol)).max(0) {
                    return Err(("reward".into(), format!("reward of {} in pool {} is {}, specification {:.6}", i, n, got, f(&exact))));
                }
                if !p.skewed {
                    let ideal = p.ideal.get(&i).cloned().unwrap_or(zero());
                    if (got as i128) < floor(&(&ideal - &rtol)).max(0) || got as i128 > floor(&(&ideal + &rtol)).max(0) {
                        let key = if p.full && q(got as i128) < ideal { "rewards-lost:full-slash" } else { "reward-ideal" };
                        return Err((key.into(), format!("reward of {} in pool {} is {}, it earned {:.6}", i, n, got, f(&ideal))));
                    }
                }
            }
            let total = staking::Pallet::<Test>::total_current_stake_at_index(n as u64, v()).into_inner();
            let diff = abs(&(fixed(total) - p.total()));
            if diff > tol { return Err(("total-current".into(), format!("total current stake of pool {} is {:.6}, specification {:.6}", n, f(&fixed(total)), f(&p.total())))) }
            if sum > floor(&(p.total() + &tol)) {
                let key = if p.negative() { "stake-overpay:after-skewed-slash" } else { "stake-overpay" };
                return Err((key.into(), format!("claimable stakes {} exceed the total current stake {:.6} of pool {}", sum, f(&p.total()), n)));
            }
            if claims + p.paid as i128 > p.distributed as i128 {
                let excess = q(claims + p.paid as i128 - p.distributed as i128);
                let key = if clipped || p.negative() { "reward-overpay:after-skewed-slash" } else if excess <= slack && slack >= one() { "reward-overpay:fixed-point-rounding" } else { "reward-overpay" };
                return Err((key.into(), format!("claims {} + paid {} exceed the {} distributed to pool {}", claims, p.paid, p.distributed, n)));
            }
            let got = staking::Pallet::<Test>::total_rewards(WRAPPED, (n as u64, v())).into_inner();
            if got != (p.distributed as i128 - p.paid as i128) * 1_000_000_000_000_000_000 { return Err(("total-rewards".into(), format!("total rewards of pool {} are {}, distributed {} paid {}", n, got, p.distributed, p.paid))) }
        }
        let nonce = <VaultStaking as StakingApi<Vid, u64, Balance>>::nonce(&v());
        if nonce != m.pools.len() as u64 - 1 { return Err(("nonce".into(), format!("nonce {}, specification {}", nonce, m.pools.len() - 1))) }
        if m.pools.last().unwrap().dust { return Ok(()) }
        let t: Balance = P::get_total_stake(&id(None)).unwrap_or(u128::MAX);
        let exact = m.pools.last().unwrap().total();
        if (t as i128) < floor(&(&exact - &tol)).max(0) || t as i128 > floor(&(&exact + &tol)) { return Err(("total-stake".into(), format!("get_total_stake is {}, specification {:.6}", t, f(&exact)))) }
        Ok(())
    }
}

impl Machine for Sys {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { vec![("empty".into(), St { map: Map::new(), m: Model { pools: vec![Pool::default()], n: 0, big: 1 }, stop: false })] }
    fn key(&self, s: &St) -> u128 {
        let a = mcstore::isolated(s.map.clone(), || mcstore::fingerprint(|_| true)).0;
        a ^ fp(format!("{:?}", s.m.pools).as_bytes()).rotate_left(1)
    }
    fn ops(&self, s: &St) -> Vec<Op> {
        if s.stop { return vec![] }
        let p = s.m.pools.last().unwrap();
        let mut v = vec![];
        for i in 0..self.stakers {
            for a in &self.dep { v.push(Op::Deposit(i, *a)); }
            for n in (0..s.m.pools.len()).map(|n| Some(n as u64)).chain([None]) {
                let pl = &s.m.pools[n.unwrap_or(s.m.pools.len() as u64 - 1) as usize];
                if pl.cur(i) > zero() {
                    v.push(Op::Withdraw(i, self.dep[0], n));
                    if n.is_some() { v.push(Op::Withdraw(i, floor(&pl.cur(i)) as u128 + 1, n)); v.push(Op::WithdrawAll(i, n)); }
                }
                if pl.distributed > 0 && n.is_some() { v.push(Op::Claim(i, n)); }
            }
        }
        let t = floor(&p.total()).max(0) as u128;
        for x in &self.slash { if *x <= t { v.push(Op::Slash(*x)); } }
        if t > 0 { v.push(Op::SlashAll); }
        for r in &self.dist { v.push(Op::Distribute(*r)); }
        if s.m.pools.len() <= self.refunds && t > 0 { v.push(Op::Refund); }
        v
    }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut m = s.m.clone();
        m.n += 1;
        let tol = self.tol(&m);
        let last = m.pools.len() - 1;
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<(Model, String), (String, String)> {
            let before = mcstore::fingerprint(|_| true);
            let label: String;
            let mut full = false;
            match op {
                Op::Deposit(i, a) => {
                    let r = tx(|| P::deposit_stake(&id(None), &who(*i), *a));
                    // the reward per token is a 128-bit fixed point number with 18 decimals: products beyond 1.7*10^20 are refused
                    let beyond = m.pools[last].rpt() * qu(*a) > q(100_000_000_000_000_000_000);
                    if let Err(e) = r { if beyond { return Ok((m, "deposit beyond the number range refused".into())) } else { return Err(("deposit-fails".to_string(), format!("{:?}", e))) } }
                    m.pools[last].touch(*i, qu(*a));
                    m.big = m.big.max(*a * 4);
                    label = "deposit".into();
                }
                Op::Withdraw(i, a, n) => {
                    let r = tx(|| P::withdraw_stake(&id(*n), &who(*i), *a));
                    let p = &mut m.pools[n.map(|x| x as usize).unwrap_or(last)];
                    let room = p.cur(*i) - qu(*a);
                    if abs(&room) > tol && r.is_ok() != (room > zero()) {
                        let old = if n.map_or(false, |x| (x as usize) < last) { ":old-pool" } else { "" };
                        return Err((format!("withdraw-acceptance{}", old), format!("withdrawing {} of a stake of {:.6} in pool {:?} returned {:?}", a, f(&p.cur(*i)), n, r)));
                    }
                    if r.is_ok() { p.touch(*i, -qu(*a)); label = "withdraw".into() } else { label = "withdraw refused".into() }
                }
                Op::WithdrawAll(i, n) => {
                    let r: Result<Balance, _> = tx(|| P::withdraw_all_stake(&id(*n), &who(*i)));
                    let p = &mut m.pools[n.map(|x| x as usize).unwrap_or(last)];
                    let c = p.cur(*i);
                    match r {
                        Ok(got) if got as i128 >= floor(&(&c - &tol)).max(0) && got as i128 <= floor(&(&c + &tol)) => {}
                        r => {
                            let old = if n.map_or(false, |x| (x as usize) < last) { ":old-pool" } else { "" };
                            return Err((format!("withdraw-all{}", old), format!("withdrawing all of a stake of {:.6} in pool {:?} returned {:?}", f(&c), n, r)))
                        }
                    }
                    p.touch(*i, -c);
                    label = "withdraw all".into();
                }
                Op::Slash(_) | Op::SlashAll => {
                    let p = &mut m.pools[last];
                    let x = match op { Op::Slash(x) => *x, _ => P::get_total_stake(&id(None)).unwrap() };
                    if floor(&(p.total() - qu(x) + &tol)) < 0 { return Err(("total-stake".into(), format!("get_total_stake {} is more than the stakes {:.6}", x, f(&p.total())))) }
                    tx(|| <VaultStaking as StakingApi<Vid, u64, Balance>>::slash_stake(&v(), x)).map_err(|e| ("slash-fails".to_string(), format!("{:?}", e)))?;
                    let (t, nt) = (p.total(), p.nominals());
                    let after = &t - qu(x);
                    for i in 0..self.stakers { if p.cur(i) * &nt != p.nom(i) * &t { p.skewed = true } }
                    for i in 0..self.stakers { let d = qu(x) * p.nom(i) / &nt; let c = p.cur(i) - d; p.cur.insert(i, c); }
                    if after > &tol * q(1000) {
                        let r = p.rpt();
                        let e = p.rpt_err.clone().unwrap_or(zero());
                        // relative error of the total times the reward per token, plus the error so far, both scaled
                        p.rpt_err = Some((&e + &tol) * &t / &after + &r * &t / &after * &tol * q(2) / &after + qf(4, 1_000_000_000_000_000_000));
                        p.rpt = Some(r * &t / &after);
                    }
                    else {
                        let left = staking::Pallet::<Test>::total_current_stake_at_index(last as u64, v()).into_inner();
                        p.dust = left != 0 || after > zero();
                        full = true;
                        p.full = true;
                    }
                    label = "slash".into();
                }
                Op::Distribute(a) => {
                    let before_total = staking::Pallet::<Test>::total_rewards(WRAPPED, (last as u64, v()));
                    tx(|| P::distribute_reward(&id(None), WRAPPED, *a)).map_err(|e| ("distribute-fails".to_string(), format!("{:?}", e)))?;
                    let taken = staking::Pallet::<Test>::total_rewards(WRAPPED, (last as u64, v())) != before_total;
                    let p = &mut m.pools[last];
                    let t = p.total();
                    if t > tol && !taken { return Err(("distribute-dropped".into(), format!("a distribution to a total stake of {:.6} was dropped", f(&t)))) }
                    if taken && t <= tol && t > -tol.clone() && m.n > 1 && p.cur.len() > 0 { p.dust = true; return Ok((m, "distribute onto rounding dust".into())) }
                    if taken {
                        if t <= zero() { return Err(("distribute-empty".into(), "a distribution to an empty pool was counted".into())) }
                        let r = p.rpt();
                        let e = p.rpt_err.clone().unwrap_or(zero());
                        p.rpt_err = Some(e + qf(2, 1_000_000_000_000_000_000) + qu(*a) / &t * &tol * q(2) / &t);
                        p.rpt = Some(r + qu(*a) / &t);
                        for i in 0..self.stakers { let add = qu(*a) * p.cur(i) / &t; *p.ideal.entry(i).or_insert(zero()) += add; }
                        p.distributed += a;
                        label = "distribute".into();
                    } else { label = "distribute to empty pool".into() }
                }
                Op::Claim(i, n) => {
                    let want: Balance = P::compute_reward(&id(*n), &who(*i), WRAPPED).unwrap();
                    let got: Balance = tx(|| P::withdraw_reward(&id(*n), &who(*i), WRAPPED)).map_err(|e| ("claim-fails".to_string(), format!("{:?}", e)))?;
                    if got != want { return Err(("claim-amount".into(), format!("withdraw_reward paid {}, compute_reward announced {}", got, want))) }
                    let p = &mut m.pools[n.map(|x| x as usize).unwrap_or(last)];
                    p.paid += got;
                    let (c, r) = (p.cur(*i), p.rpt());
                    p.tally.insert(*i, &c * r);
                    p.nominal.insert(*i, c);
                    p.ideal.insert(*i, zero());
                    label = "claim".into();
                }
                Op::Refund => {
                    let r: Balance = tx(|| <VaultStaking as StakingApi<Vid, u64, Balance>>::force_refund(&v())).map_err(|e| ("refund-fails".to_string(), format!("{:?}", e)))?;
                    let c = m.pools[last].cur(0);
                    let t = m.pools[last].total();
                    // the vault's whole units move to the new pool, fractions stay behind
                    let moved = { let lo = floor(&(&c - &tol)).max(0); let got: Balance = P::get_stake(&id(Some(last as u64 + 1)), &who(0)).unwrap(); if got as i128 == lo || got as i128 == floor(&(&c + &tol)) { got } else { return Err(("refund-moved".into(), format!("refund moved {} of the vault's {:.6}", got, f(&c)))) } };
                    let rest = t - qu(moved);
                    if (r as i128) < floor(&(&rest - &tol)) || r as i128 > floor(&(&rest + &tol)) { return Err(("refund-amount".into(), format!("refund returned {}, the other stakers hold {:.6}", r, f(&rest)))) }
                    m.pools[last].touch(0, -qu(moved));
                    let mut np = Pool::default();
                    np.touch(0, qu(moved));
                    m.pools.push(np);
                    label = "refund".into();
                }
            }
            if label.ends_with("refused") && mcstore::fingerprint(|_| true) != before { return Err(("refused-changes".into(), "a refused operation changed the state".into())) }
            if full && !m.pools[last].skewed {
                let pending = m.pools[last].ideal.values().map(|x| floor(x)).sum::<i128>();
                let claims: i128 = (0..self.stakers).map(|i| P::compute_reward(&id(None), &who(i), WRAPPED).unwrap() as i128).sum();
                if claims < pending { return Err(("rewards-lost:full-slash".into(), format!("slashing the whole stake left {} of {} pending rewards claimable", claims, pending))) }
            }
            self.check(&m)?;
            Ok((m, label))
        });
        r.map(|(m, l)| { let stop = m.pools.iter().any(|p| p.negative() || p.dust); (St { map, m, stop }, l) })
    }
}

pub fn v08(ctx: &mut Ctx) {
    ctx.assume("slashes are at most the total current stake (every caller bounds them)");
    for (name, sys, dq, dt) in [
        ("vault + 1 nominator, deposits 10/30, slashes 4, rewards 7", Sys { stakers: 2, dep: vec![10, 30], slash: vec![4], dist: vec![7], refunds: 2 }, 6, 7),
        ("vault + 2 nominators, deposits 10, slashes 9, rewards 100", Sys { stakers: 3, dep: vec![10], slash: vec![9], dist: vec![100], refunds: 1 }, 6, 7),
        ("large stakes 10^12+7 / 10^15", Sys { stakers: 2, dep: vec![1_000_000_000_007, 1_000_000_000_000_000], slash: vec![333_333_333_333], dist: vec![1_000_000_007], refunds: 1 }, 6, 7),
    ] {
        let d = ctx.pick(dq, dt);
        ctx.bound(format!("{}: every history of at most {} operations", name, d));
        bfs(ctx, &sys, d, ctx.pick(300_000, 4_000_000));
    }
}
