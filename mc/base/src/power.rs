//! S03: every history of locks against linear decay.
use crate::soc::System;
use crate::soc::*;
use frame_support::traits::{Currency, ExistenceRequirement};
use kit::{System as Machine, *};
use mcstore::Map;
use reward::RewardsApi;

const ACCOUNTS: [AccountId; 3] = [1, 2, 3];
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Lock { amount: u128, end: u64 }
#[derive(Clone)]
pub struct St { map: Map, now: u64, lock: [Lock; 3], stake: [(u128, u64); 3], blocked: [bool; 3], limit: [Option<(u64, u64)>; 3] }
#[derive(Clone, Debug)]
pub enum Op { Create(usize, u128, u64), More(usize, u128), Longer(usize, u64), Withdraw(usize), Refresh(usize, usize), Block(u64), Limit(usize, u64, u64), Ban(usize), By(usize) }
pub struct Escrows { start: Vec<(String, St)>, amounts: Vec<u128>, funds: [u128; 3], users: usize, steps: Vec<u64>, admin: bool }
/// amount scaled by the remaining time, with at most one unit lost per block left (the slope is a whole number)
fn power(l: &Lock, h: u64) -> (u128, u128) {
    let left = l.end.saturating_sub(h) as u128;
    let x = l.amount * left / MAX_PERIOD as u128;
    (x.saturating_sub(left), x)
}
impl Escrows {
    fn new(amounts: Vec<u128>, funds: [u128; 3], users: usize, at: u64, steps: Vec<u64>, admin: bool) -> Escrows {
        let g = genesis(&[(1, funds[0]), (2, funds[1]), (3, funds[2]), (9, 1000)], &[]);
        let (_, map) = mcstore::isolated(g, || System::set_block_number(at));
        Escrows { start: vec![(format!("block {}", at), St { map, now: at, lock: Default::default(), stake: Default::default(), blocked: [false; 3], limit: [None; 3] })], amounts, funds, users, steps, admin }
    }
    fn scenario(&mut self, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        for o in ops { match self.step(&s, o) { Ok((n, _)) => s = n, Err(_) => break } }
        self.start.push((name.into(), s));
    }
    /// what an account can lock in all
    fn lockable(&self, s: &St, i: usize) -> u128 {
        if s.blocked[i] { return 0 }
        match s.limit[i] { None => self.funds[i], Some((a, b)) => {
            let d = (b - a) as u128;
            // linear release between start and end
            let slope = self.funds[i] / d;
            (slope * d).saturating_sub(slope * (b.saturating_sub(s.now)) as u128)
        } }
    }
    fn check(&self, s: &St) -> Result<(), (String, String)> {
        let e = |k: &str, m: String| Err((k.to_string(), m));
        for h in s.now..=s.now + MAX_PERIOD + SPAN + 1 {
            let mut sum = 0;
            for (i, a) in ACCOUNTS.iter().enumerate() {
                let got = Escrow::balance_at(a, Some(h));
                let (lo, hi) = power(&s.lock[i], h);
                if got < lo || got > hi { return e("power", format!("voting power of {} with {:?} at {} is {}, expected {} to {}", a, s.lock[i], h, got, lo, hi)) }
                if h == s.now && Escrow::balance_at(a, None) != got { return e("power-now", format!("power of {} now differs from power at {}", a, h)) }
                sum += got;
            }
            let total = Escrow::total_supply(Some(h));
            if total != sum { return e("total", format!("total voting power at {} (now {}) is {}, the accounts {:?} have {}", h, s.now, total, s.lock, sum)) }
            if h == s.now && (Escrow::total_supply(None) != total || <Escrow as Currency<AccountId>>::total_issuance() != total) { return e("total-now", "the total power now differs".into()) }
        }
        for (i, a) in ACCOUNTS.iter().enumerate() {
            let l = Escrow::locked_balance(a);
            if l.amount != s.lock[i].amount { return e("locked", format!("{} has {} locked, expected {}", a, l.amount, s.lock[i].amount)) }
            // locked tokens cannot be moved, all others can
            let spare = self.funds[i] - s.lock[i].amount;
            for (v, ok) in [(spare, true), (spare + 1, false)] {
                if v == 0 || (v > spare && s.lock[i].amount == 0) { continue }
                mcstore::begin();
                let r = <Balances as Currency<AccountId>>::transfer(a, &9, v, ExistenceRequirement::AllowDeath);
                mcstore::rollback();
                if r.is_ok() != ok { return e(if ok { "kept" } else { "released" }, format!("{} with {} locked of {} transfers {}: {:?}", a, s.lock[i].amount, self.funds[i], v, r)) }
            }
            // the stake for rewards is the voting power of the last own operation
            let stake = <EscrowRewards as RewardsApi<(), AccountId, u128>>::get_stake(&(), a);
            let (lo, hi) = if s.stake[i].1 == 0 { (0, 0) } else { power(&Lock { amount: s.stake[i].0, end: s.lock[i].end }, s.stake[i].1) };
            if !matches!(stake, Ok(x) if x >= lo && x <= hi) { return e("stake", format!("{} has {:?} staked for rewards, expected {} to {}", a, stake, lo, hi)) }
        }
        Ok(())
    }
}
impl Machine for Escrows {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v: Vec<Op> = self.steps.iter().map(|d| Op::Block(*d)).collect();
        let next = (s.now / SPAN + 1) * SPAN;
        for i in 0..self.users {
            for a in &self.amounts { for h in [next, next + 1, next + SPAN, (s.now + MAX_PERIOD) / SPAN * SPAN] { v.push(Op::Create(i, *a, h)) } v.push(Op::More(i, *a)) }
            v.push(Op::Create(i, 0, next));
            v.push(Op::Create(i, self.amounts[0], s.now));
            v.push(Op::Create(i, self.amounts[0], s.now + MAX_PERIOD + SPAN));
            v.push(Op::More(i, 0));
            for h in [next, next + SPAN + 1, s.now + MAX_PERIOD, s.now + MAX_PERIOD + SPAN] { v.push(Op::Longer(i, h)) }
            v.push(Op::Withdraw(i));
            v.push(Op::Refresh((i + 1) % self.users, i));
            if self.admin { v.push(Op::Ban(i)); v.push(Op::Limit(i, s.now - s.now % 4, s.now + 8)); v.push(Op::Limit(i, s.now + 2, s.now + 4)); v.push(Op::By(i)) }
        }
        v
    }
    fn key(&self, s: &St) -> u128 {
        let scheduled: Vec<_> = mcstore::isolated(s.map.clone(), || { let mut k = sp_core::twox_128(b"Escrow").to_vec(); k.extend(sp_core::twox_128(b"SlopeChanges")); mcstore::keys_with_prefix(&k).iter().map(|k| (k.to_vec(), mcstore::get(k).unwrap().to_vec())).collect::<Vec<_>>() }).0;
        fp(format!("{:?}", (s.now, &s.lock, &s.stake, &s.blocked, &s.limit, scheduled)).as_bytes())
    }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let round = |h: u64| h / SPAN * SPAN;
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let lock_ok = |s: &St, i: usize, amount: u128| amount >= MAX_PERIOD as u128 && amount <= self.lockable(s, i);
            let (got, ok, label) = match *op {
                Op::Block(d) => { n.now += d; System::set_block_number(n.now); (Ok(()), true, "blocks pass") }
                Op::Create(i, a, h) => {
                    let l = s.lock[i];
                    let ok = a > 0 && l.amount == 0 && round(h) > s.now && round(h) <= s.now + MAX_PERIOD && lock_ok(s, i, a);
                    if ok { n.lock[i] = Lock { amount: a, end: round(h) }; n.stake[i] = (a, s.now) }
                    (tx(|| Escrow::create_lock(signed(ACCOUNTS[i]), a, h)), ok, "lock")
                }
                Op::More(i, a) => {
                    let l = s.lock[i];
                    let ok = a > 0 && l.amount > 0 && l.end > s.now && lock_ok(s, i, l.amount + a);
                    if ok { n.lock[i].amount += a; n.stake[i] = (l.amount + a, s.now) }
                    (tx(|| Escrow::increase_amount(signed(ACCOUNTS[i]), a)), ok, "larger lock")
                }
                Op::Longer(i, h) => {
                    let l = s.lock[i];
                    let ok = l.amount > 0 && l.end > s.now && round(h) > l.end && round(h) <= s.now + MAX_PERIOD && lock_ok(s, i, l.amount);
                    if ok { n.lock[i].end = round(h); n.stake[i] = (l.amount, s.now) }
                    (tx(|| Escrow::increase_unlock_height(signed(ACCOUNTS[i]), h)), ok, "longer lock")
                }
                Op::Withdraw(i) => {
                    let ok = s.now >= s.lock[i].end;
                    if ok { n.lock[i] = Lock::default(); n.stake[i] = (0, 0) }
                    (tx(|| Escrow::withdraw(signed(ACCOUNTS[i]))), ok, "withdrawal")
                }
                Op::Refresh(by, i) => {
                    let ok = lock_ok(s, i, s.lock[i].amount);
                    if ok { n.stake[i] = (s.lock[i].amount, s.now) }
                    (tx(|| Escrow::update_user_stake(signed(ACCOUNTS[by]), ACCOUNTS[i])), ok, "refreshed stake")
                }
                Op::Limit(i, a, b) => { n.limit[i] = Some((a, b)); (tx(|| Escrow::set_account_limit(root(), ACCOUNTS[i], a, b).map(|_| ()).map_err(|e| e.error)), true, "limit") }
                Op::Ban(i) => { n.blocked[i] = true; (tx(|| Escrow::set_account_block(root(), ACCOUNTS[i]).map(|_| ()).map_err(|e| e.error)), true, "blocked") }
                Op::By(i) => (tx(|| { Escrow::set_account_block(signed(9), ACCOUNTS[i]).map(|_| ()).map_err(|e| e.error) }).or(tx(|| Escrow::set_account_limit(signed(9), ACCOUNTS[i], 0, 1).map(|_| ()).map_err(|e| e.error))), false, "admin by others"),
            };
            let free = Escrow::free_stakable(&1);
            if free != self.lockable(&n, 0).saturating_sub(n.lock[0].amount) { return Err(("stakable".into(), format!("1 can lock {} more, expected {}", free, self.lockable(&n, 0).saturating_sub(n.lock[0].amount)))) }
            if got.is_ok() != ok { return Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, label), format!("{:?} with {:?} at {}: {:?}", op, s.lock, s.now, got.map_err(|e| err_name(&e))))) }
            self.check(&n)?;
            Ok(if ok { label.to_string() } else { format!("no {}: {}", label, err_name(&got.unwrap_err())) })
        });
        n.map = map;
        Ok((n, r?))
    }
}
pub fn s03(ctx: &mut Ctx) {
    let mut runs = vec![];
    // one account, fine amounts and all single steps
    runs.push(("one account", Escrows::new(vec![12, 25, 41], [100, 50, 50], 1, 5, vec![1, 3, 4], true), ctx.pick(5, 7)));
    let mut two = Escrows::new(vec![24, 31], [100, 90, 50], 2, 8, vec![1, 4], false);
    two.scenario("two locks of different length", &[Op::Create(0, 24, 12), Op::Create(1, 60, 20)]);
    two.scenario("a lock about to expire and a long one", &[Op::Create(0, 36, 12), Op::Create(1, 48, 20), Op::Block(1), Op::Block(1), Op::More(1, 12)]);
    runs.push(("two accounts", two, ctx.pick(5, 7)));
    let mut three = Escrows::new(vec![36], [100, 90, 50], 3, 7, vec![1, 5], false);
    three.scenario("three locks", &[Op::Create(0, 24, 8), Op::Create(1, 60, 12), Op::Create(2, 36, 16), Op::Longer(0, 16)]);
    runs.push(("three accounts", three, ctx.pick(4, 6)));
    for (what, m, d) in runs {
        let n = bfs(ctx, &m, d, 2_000_000);
        ctx.bound(format!("{}: {} operations from {} starting states, amounts {:?}, steps of {:?} blocks, spans of {} and locks of at most {} blocks, power checked at every later height, {} states", what, d, m.start.len(), m.amounts, m.steps, SPAN, MAX_PERIOD, n));
    }
}
