//! X01: every history of the bootstrap of two pairs that share the bootstrap account.
use crate::soc::System;
use crate::soc::*;
use kit::{System as Machine, *};
use mcstore::Map;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use sp_runtime::traits::AccountIdConversion;

const TOKENS: [CurrencyId; 3] = [Token(DOT), Token(IBTC), Token(INTR)];
/// what is rewarded, and what must be held to contribute to the second pair
const R: CurrencyId = Token(KSM);
const LIMIT: CurrencyId = Token(KINT);
const PAIRS: [(usize, usize); 2] = [(0, 1), (0, 2)];
type Gen = dex_general::Pallet<Test>;
fn lp(q: usize) -> CurrencyId { CurrencyId::join_lp_token(TOKENS[PAIRS[q].0], TOKENS[PAIRS[q].1]).unwrap() }
fn pool(q: usize) -> AccountId { Gen::pair_account_id(TOKENS[PAIRS[q].0], TOKENS[PAIRS[q].1]) }
fn boot() -> AccountId { <Test as dex_general::Config>::PalletId::get().into_sub_account_truncating("boot") }
use frame_support::traits::Get;
fn accounts() -> [AccountId; 6] { [1, 2, 3, boot(), pool(0), pool(1)] }
fn currencies() -> [CurrencyId; 6] { [TOKENS[0], TOKENS[1], TOKENS[2], lp(0), lp(1), R] }
fn b(x: u128) -> BigUint { BigUint::from(x) }
#[derive(Clone, Debug, PartialEq)]
struct Boot { target: (u128, u128), cap: (u128, u128), acc: (u128, u128), end: u64 }
#[derive(Clone, Debug, PartialEq)]
enum Status { None, Boot(Boot), Trading }
#[derive(Clone, Debug)]
struct Model { h: u64, led: [[u128; 6]; 6], status: [Status; 2], ended: [Option<Boot>; 2], given: [[Option<(u128, u128)>; 2]; 2], rewards: [u128; 2], paid: [u128; 2], listed: [bool; 2] }
impl Model {
    fn failed(&self, p: &Boot) -> bool { self.h > p.end && (p.acc.0 < p.target.0 || p.acc.1 < p.target.1) }
    fn mv(&mut self, c: usize, from: usize, to: usize, x: u128) -> Option<()> { self.led[from][c] = self.led[from][c].checked_sub(x)?; self.led[to][c] += x; Some(()) }
    fn contribute(&mut self, u: usize, q: usize, x: (u128, u128)) -> Option<()> {
        let Status::Boot(mut p) = self.status[q].clone() else { return None };
        if self.h >= p.end || (q == 1 && u == 1) { return None }
        let clip = |x: u128, acc: u128, cap: u128| if x + acc > cap { cap.checked_sub(acc) } else { Some(x) };
        let x = (clip(x.0, p.acc.0, p.cap.0)?, clip(x.1, p.acc.1, p.cap.1)?);
        if x == (0, 0) { return None }
        self.mv(PAIRS[q].0, u, 3, x.0)?;
        self.mv(PAIRS[q].1, u, 3, x.1)?;
        p.acc = (p.acc.0 + x.0, p.acc.1 + x.1);
        let g = self.given[q][u].unwrap_or((0, 0));
        self.given[q][u] = Some((g.0 + x.0, g.1 + x.1));
        self.status[q] = Status::Boot(p);
        Some(())
    }
    fn end(&mut self, q: usize) -> Option<()> {
        let Status::Boot(p) = self.status[q].clone() else { return None };
        let l = (b(p.acc.0) * b(p.acc.1)).sqrt().to_u128()?;
        if self.h < p.end || p.acc.0 < p.target.0 || p.acc.1 < p.target.1 || l == 0 { return None }
        self.mv(PAIRS[q].0, 3, 4 + q, p.acc.0)?;
        self.mv(PAIRS[q].1, 3, 4 + q, p.acc.1)?;
        self.led[4 + q][3 + q] += l;
        self.status[q] = Status::Trading;
        self.ended[q] = Some(p);
        Some(())
    }
    fn claim(&mut self, u: usize, q: usize, to: usize) -> Option<()> {
        if self.status[q] != Status::Trading { return None }
        let (x, y) = self.given[q][u].take()?;
        let p = self.ended[q].clone()?;
        if self.failed(&p) { return None }
        let (s0, s1) = (b(p.acc.0), b(p.acc.1));
        let e0 = (b(x) * &s1 + b(y) * &s0) / (&s1 * b(2));
        let e1 = (b(y) * &s0 + b(x) * &s1) / (&s0 * b(2));
        let l = (e0 * e1).sqrt().to_u128()?;
        self.mv(3 + q, 4 + q, to, l)?;
        if self.listed[q] {
            let r = (b(l) * b(self.rewards[q]) / (s0 * s1).sqrt()).to_u128()?;
            self.mv(5, 3, u, r)?;
            self.paid[q] += r;
        }
        Some(())
    }
    fn refund(&mut self, u: usize, q: usize) -> Option<()> {
        let p = match &self.status[q] { Status::Boot(p) => p.clone(), _ => self.ended[q].clone()? };
        if !self.failed(&p) { return None }
        let (x, y) = self.given[q][u].take()?;
        self.mv(PAIRS[q].0, 3, u, x)?;
        self.mv(PAIRS[q].1, 3, u, y)?;
        if let Status::Boot(p) = &mut self.status[q] { p.acc = (p.acc.0.checked_sub(x)?, p.acc.1.checked_sub(y)?); }
        Some(())
    }
    fn renew(&mut self, q: usize, t: (u128, u128), cap: (u128, u128), end: u64, only_failed: bool) -> Option<()> {
        let acc = match &self.status[q] { Status::Boot(p) if !only_failed || self.failed(p) => p.acc, Status::None if only_failed => (0, 0), _ => return None };
        if self.rewards[q] > 0 && self.listed[q] { return None }
        self.listed[q] = true;
        self.rewards[q] = 0;
        self.status[q] = Status::Boot(Boot { target: t, cap, acc, end });
        Some(())
    }
    fn create_pair(&mut self, q: usize) -> Option<()> {
        match self.status[q].clone() { Status::Boot(p) if self.failed(&p) => self.ended[q] = Some(p), Status::None => (), _ => return None }
        self.status[q] = Status::Trading;
        Some(())
    }
    fn charge(&mut self, u: usize, q: usize, x: u128) -> Option<()> { if !self.listed[q] { return None } self.mv(5, u, 3, x)?; self.rewards[q] += x; Some(()) }
    /// what was charged and not yet distributed
    fn withdraw(&mut self, q: usize) -> Option<()> { let x = self.rewards[q] - self.paid[q]; self.mv(5, 3, 2, x)?; self.rewards[q] = 0; self.paid[q] = 0; Some(()) }
}
#[derive(Clone)]
pub struct St { map: Map, m: Model }
#[derive(Clone, Debug)]
enum Op { Block, Contribute(usize, usize, bool, u128, u128), End(usize, usize), Claim(usize, usize, usize), Refund(usize, usize), Update(usize, u128, u128, u64), Create(usize, u64), Pair(usize), Charge(usize, usize, u128), Withdraw(usize) }
struct Boots { start: Vec<(String, St)> }
const USERS: [u128; 3] = [1, 2, 3];
const FUNDS: u128 = 1000;
impl Boots {
    fn new() -> Boots {
        let mut t = vec![(1, LIMIT, 10), (3, R, 50)];
        let mut led = [[0; 6]; 6];
        for u in 0..2 { for c in 0..3 { t.push((USERS[u], TOKENS[c], FUNDS)); led[u][c] = FUNDS; } t.push((USERS[u], R, 100)); led[u][5] = 100; }
        led[2][5] = 50;
        let (_, map) = mcstore::isolated(genesis(&t), || System::set_block_number(1));
        let m = Model { h: 1, led, status: [Status::None, Status::None], ended: [None, None], given: Default::default(), rewards: [0; 2], paid: [0; 2], listed: [false; 2] };
        Boots { start: vec![("no bootstrap".into(), St { map, m })] }
    }
    fn scenario(&mut self, ctx: &mut Ctx, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        let mut done = vec![];
        for o in ops { done.push(format!("{:?}", o)); match self.step(&s, o) { Ok((n, _)) => s = n, Err((k, m)) => { ctx.fail(k, format!("{} after {}", m, done.join(" ; ")), done); return } } }
        self.start.push((name.into(), s));
    }
}
impl Machine for Boots {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start[1..].to_vec() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Block];
        for q in 0..2 {
            for u in 0..2 { v.push(Op::Claim(u, q, 1 - u)); v.push(Op::Refund(u, q)); v.push(Op::Charge(u, q, 9)); }
            v.push(Op::Contribute(0, q, false, 40, 90)); v.push(Op::Contribute(1, q, true, 130, 55)); v.push(Op::Contribute(1, q, false, 7, 0)); v.push(Op::Contribute(0, q, true, 0, 0));
            v.push(Op::End(1, q)); v.push(Op::Update(q, 60, 70, s.m.h)); v.push(Op::Update(q, 20, 300, s.m.h + 2)); v.push(Op::Create(q, s.m.h + 1)); v.push(Op::Pair(q)); v.push(Op::Withdraw(q));
        }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", s.m).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let h = s.m.h;
            let m = &mut n.m;
            let t = |q: usize, flip: bool| { let (i, j) = PAIRS[q]; if flip { (TOKENS[j], TOKENS[i]) } else { (TOKENS[i], TOKENS[j]) } };
            let refused = |f: &dyn Fn() -> DispatchResult, what: &str| { mcstore::begin(); let r = f(); mcstore::rollback(); if r.is_ok() { Err((format!("accepted:{}", what), format!("{:?} is accepted with {}", op, what))) } else { Ok(()) } };
            let limits = |q: usize| if q == 1 { vec![(LIMIT, 10)] } else { vec![] };
            let (want, got, what): (Option<()>, Result<(), String>, &str) = match *op {
                Op::Block => { m.h += 1; System::set_block_number(m.h); (Some(()), Ok(()), "block") }
                Op::Contribute(u, q, flip, x, y) => {
                    let (i, j) = t(q, flip);
                    let (a, c) = if flip { (y, x) } else { (x, y) };
                    let f = |dl| Gen::bootstrap_contribute(signed(USERS[u]), i, j, a, c, dl);
                    refused(&|| f(h), "an expired deadline")?;
                    (m.contribute(u, q, (x, y)), tx(|| f(h + 1)), "contribution")
                }
                Op::End(u, q) => { let (i, j) = t(q, h % 2 == 0); (m.end(q), tx(|| Gen::bootstrap_end(signed(USERS[u]), i, j)), "end") }
                Op::Claim(u, q, to) => {
                    let (i, j) = t(q, h % 2 == 0);
                    let f = |dl| Gen::bootstrap_claim(signed(USERS[u]), USERS[to], i, j, dl);
                    refused(&|| f(h), "an expired deadline")?;
                    (m.claim(u, q, to), tx(|| f(h + 1)), "claim")
                }
                Op::Refund(u, q) => { let (i, j) = t(q, u == 0); (m.refund(u, q), tx(|| Gen::bootstrap_refund(signed(USERS[u]), i, j)), "refund") }
                Op::Update(q, tg, cap, end) => {
                    let (i, j) = t(q, true);
                    let f = |o| Gen::bootstrap_update(o, i, j, tg + 5, tg, cap + 5, cap, end, vec![R], limits(q));
                    refused(&|| f(signed(1)), "a user as origin")?;
                    (m.renew(q, (tg, tg + 5), (cap, cap + 5), end, false), tx(|| f(root())), "update")
                }
                Op::Create(q, end) => {
                    let (i, j) = t(q, true);
                    let f = |o| Gen::bootstrap_create(o, i, j, 40, 30, 200, 100, end, vec![R], limits(q));
                    refused(&|| f(signed(1)), "a user as origin")?;
                    (m.renew(q, (30, 40), (100, 200), end, true), tx(|| f(root())), "created bootstrap")
                }
                Op::Pair(q) => { let (i, j) = t(q, true); (m.create_pair(q), tx(|| Gen::create_pair(root(), i, j, 30)), "created pair") }
                Op::Charge(u, q, x) => { let (i, j) = t(q, true); refused(&|| Gen::bootstrap_charge_reward(signed(USERS[u]), i, j, vec![(LIMIT, 1)]), "another reward")?; (m.charge(u, q, x), tx(|| Gen::bootstrap_charge_reward(signed(USERS[u]), i, j, vec![(R, x)])), "charged reward") }
                Op::Withdraw(q) => {
                    let (i, j) = t(q, true);
                    refused(&|| Gen::bootstrap_withdraw_reward(signed(1), i, j, 3), "a user as origin")?;
                    if m.paid[q] > 0 {
                        // the pallet does not record what claims have taken
                        let before = bal(R, 3);
                        let r = tx(|| Gen::bootstrap_withdraw_reward(root(), i, j, 3));
                        let got = bal(R, 3) - before;
                        if r.is_ok() && got == m.rewards[q] - m.paid[q] { (m.withdraw(q), r, "withdrawn reward") }
                        else if (r.is_ok() && got == m.rewards[q]) || (r.is_err() && s.m.led[3][5] < m.rewards[q]) { return Err(("reward-withdrawn-after-claims".into(), format!("{} of the {} charged for pair {} were distributed, withdrawing pays {} ({:?}) out of {} held for all pairs", m.paid[q], m.rewards[q], q, got, r, s.m.led[3][5]))) }
                        else { return Err(("withdrawn-reward".into(), format!("{} of the {} charged for pair {} were distributed, withdrawing pays {} ({:?})", m.paid[q], m.rewards[q], q, got, r))) }
                    } else { (m.withdraw(q), tx(|| Gen::bootstrap_withdraw_reward(root(), i, j, 3)), "withdrawn reward") }
                }
            };
            if want.is_some() != got.is_ok() { return Err((format!("{}:{}", if want.is_some() { "refused" } else { "accepted" }, what), format!("{:?} is {:?}", op, got))) }
            if want.is_none() { *m = s.m.clone() }
            for (a, acc) in accounts().iter().enumerate() { for (c, cur) in currencies().iter().enumerate() {
                if bal(*cur, *acc) != m.led[a][c] { return Err((format!("ledger:{}", what), format!("account {} holds {} of currency {}, expected {}", ["user 1", "user 2", "account 3", "bootstrap", "pool AB", "pool AC"][a], bal(*cur, *acc), ["A", "B", "C", "LP AB", "LP AC", "R"][c], m.led[a][c]))) }
            } }
            // contributions that are neither refunded nor pooled, and rewards that are not paid, are there
            let owed: u128 = (0..2).map(|q| m.rewards[q] - m.paid[q]).sum();
            if m.led[3][5] < owed { return Err(("rewards-missing".into(), format!("the bootstrap account holds {} of the {} charged and not distributed", m.led[3][5], owed))) }
            for q in 0..2 {
                let st = Gen::pair_status((TOKENS[PAIRS[q].0], TOKENS[PAIRS[q].1]));
                let ok = match (&m.status[q], &st) {
                    (Status::None, dex_general::PairStatus::Disable) => true,
                    (Status::Trading, dex_general::PairStatus::Trading(x)) => x.total_supply == issued(lp(q)),
                    (Status::Boot(p), dex_general::PairStatus::Bootstrap(x)) => (x.target_supply, x.capacity_supply, x.accumulated_supply, x.end_block_number) == (p.target, p.cap, p.acc, p.end),
                    _ => false,
                };
                if !ok { return Err(("status".into(), format!("pair {} is {:?}, expected {:?}", q, st, m.status[q]))) }
            }
            Ok(format!("{}bootstrap {}", if want.is_some() { "" } else { "no " }, what))
        });
        n.map = map;
        r.map(|l| (n, l))
    }
}
pub fn check(ctx: &mut Ctx) {
    let mut m = Boots::new();
    let open = vec![Op::Create(0, 3), Op::Create(1, 4)];
    let with = |x: &[Op]| { let mut v = open.clone(); v.extend_from_slice(x); v };
    m.scenario(ctx, "open", &open);
    let full = [Op::Charge(0, 0, 31), Op::Charge(0, 1, 17), Op::Contribute(0, 0, false, 33, 50), Op::Contribute(1, 0, true, 21, 7), Op::Contribute(0, 1, false, 10, 41)];
    m.scenario(ctx, "contributed", &with(&full));
    let mut past = full.to_vec();
    past.extend([Op::Block, Op::Block, Op::Block, Op::Block]);
    m.scenario(ctx, "past the end", &with(&past));
    let mut ended = past.clone();
    ended.extend([Op::End(0, 0)]);
    m.scenario(ctx, "one ended and one failed", &with(&ended));
    let depth = ctx.pick(5, 6);
    let n = bfs(ctx, &m, depth, ctx.pick(2_000_000, 8_000_000));
    ctx.bound(format!("bootstrap: {} scenarios, all histories up to {} further operations over two pairs and two contributors: {} states", m.start.len() - 1, depth, n));
}
