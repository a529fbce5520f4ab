//! X01: every history of deposits, withdrawals, swaps, donations and fee changes over constant-product pools against an
//! exact reference ledger, and every history of a bootstrap.
use crate::soc::System;
use crate::soc::*;
use kit::{System as Machine, *};
use mcstore::Map;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};

pub const A: CurrencyId = Token(DOT);
pub const B: CurrencyId = Token(IBTC);
pub const C: CurrencyId = Token(INTR);
const TOKENS: [CurrencyId; 3] = [A, B, C];
const PAIRS: [(usize, usize); 3] = [(0, 1), (1, 2), (0, 2)];
pub fn pair_of(i: usize, j: usize) -> Option<usize> { PAIRS.iter().position(|p| *p == (i.min(j), i.max(j))) }
fn lp(p: usize) -> CurrencyId { CurrencyId::join_lp_token(TOKENS[PAIRS[p].0], TOKENS[PAIRS[p].1]).unwrap() }
fn pool(p: usize) -> AccountId { Gen::pair_account_id(TOKENS[PAIRS[p].0], TOKENS[PAIRS[p].1]) }
type Gen = dex_general::Pallet<Test>;
const FEE: u128 = 3;
/// accounts: users 1 and 2, the fee receiver, and the three pools; currencies: three tokens, three LP tokens
pub fn accounts() -> [AccountId; 6] { [1, 2, FEE, pool(0), pool(1), pool(2)] }
pub fn currencies() -> [CurrencyId; 6] { [A, B, C, lp(0), lp(1), lp(2)] }
fn b(x: u128) -> BigUint { BigUint::from(x) }
const SCALE: u128 = 10_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Model { pub led: [[u128; 6]; 6], pub pairs: [Option<(u128, u128)>; 3], klast: [BigUint; 3], fee_to: bool, point: u8 }
impl Model {
    pub fn reserves(&self, i: usize, j: usize) -> (u128, u128) { let p = pair_of(i, j).unwrap(); (self.led[3 + p][i], self.led[3 + p][j]) }
    fn product(&self, p: usize) -> BigUint { b(self.led[3 + p][PAIRS[p].0]) * b(self.led[3 + p][PAIRS[p].1]) }
    fn mv(&mut self, c: usize, from: usize, to: usize, x: u128) -> Option<()> { self.led[from][c] = self.led[from][c].checked_sub(x)?; self.led[to][c] += x; Some(()) }
    fn protocol_fee(&mut self, p: usize) {
        if !self.fee_to { self.klast[p] = BigUint::zero(); return }
        if self.klast[p].is_zero() { return }
        let (root, last) = (self.product(p).sqrt(), self.klast[p].sqrt());
        if root <= last { return }
        let supply = self.pairs[p].unwrap().0;
        let den = &root * b(self.point as u128) + &last;
        let m = if den.is_zero() { 0 } else { (b(supply) * (&root - &last) / den).to_u128().unwrap_or(0) };
        self.led[2][3 + p] += m;
        self.pairs[p].as_mut().unwrap().0 += m;
    }
    fn settle(&mut self, p: usize) { if self.fee_to { self.klast[p] = self.product(p) } }
    /// amounts in the caller's order; None: refused
    pub fn add(&mut self, u: usize, i: usize, j: usize, d: (u128, u128)) -> Option<(u128, u128, u128)> {
        let p = pair_of(i, j)?;
        self.pairs[p]?;
        let (r0, r1) = self.reserves(i, j);
        let (a0, a1) = if r0 == 0 || r1 == 0 { d } else {
            let o1 = b(d.0) * b(r1) / b(r0);
            if o1 <= b(d.1) { (d.0, o1.to_u128()?) } else { let o0 = b(d.1) * b(r0) / b(r1); if o0 > b(d.0) { return None } (o0.to_u128()?, d.1) }
        };
        if self.led[u][i] < a0 || self.led[u][j] < a1 { return None }
        self.protocol_fee(p);
        let supply = self.pairs[p].unwrap().0;
        let l = if supply == 0 { (b(a0) * b(a1)).sqrt() } else if r0 == 0 || r1 == 0 { return None } else { (b(a0) * b(supply) / b(r0)).min(b(a1) * b(supply) / b(r1)) }.to_u128()?;
        if l == 0 { return None }
        self.mv(i, u, 3 + p, a0)?;
        self.mv(j, u, 3 + p, a1)?;
        self.led[u][3 + p] += l;
        self.pairs[p].as_mut().unwrap().0 += l;
        self.settle(p);
        Some((a0, a1, l))
    }
    /// the fee due is minted first, then the share of what is there is paid
    pub fn remove(&mut self, u: usize, i: usize, j: usize, l: u128, to: usize) -> Option<(u128, u128)> {
        let p = pair_of(i, j)?;
        self.pairs[p]?;
        if self.led[u][3 + p] < l { return None }
        self.protocol_fee(p);
        let supply = self.pairs[p].unwrap().0;
        let (r0, r1) = self.reserves(i, j);
        let share = |r: u128| if supply == 0 { 0 } else { (b(l) * b(r) / b(supply)).to_u128().unwrap() };
        let (a0, a1) = (share(r0), share(r1));
        self.led[u][3 + p] -= l;
        self.pairs[p].as_mut().unwrap().0 = supply - l;
        self.mv(i, 3 + p, to, a0)?;
        self.mv(j, 3 + p, to, a1)?;
        self.settle(p);
        Some((a0, a1))
    }
    /// fee-adjusted constant-product quotes along the path, from the reserves before the swap
    pub fn quote_out(&self, x: u128, path: &[usize]) -> Option<Vec<u128>> {
        if path.len() < 2 { return None }
        let mut v = vec![x];
        for w in path.windows(2) {
            let p = pair_of(w[0], w[1])?;
            let (ri, ro) = self.reserves(w[0], w[1]);
            let x = *v.last().unwrap();
            if ri == 0 || ro == 0 || x == 0 { return None }
            let fee = self.pairs[p]?.1;
            let g = b(x) * b(SCALE - fee);
            let y = (&g * b(ro) / (b(ri) * b(SCALE) + &g)).to_u128()?;
            if y == 0 { return None }
            v.push(y);
        }
        Some(v)
    }
    pub fn quote_in(&self, y: u128, path: &[usize]) -> Option<Vec<u128>> {
        if path.len() < 2 { return None }
        let mut v = vec![y];
        for w in path.windows(2).rev() {
            let p = pair_of(w[0], w[1])?;
            let (ri, ro) = self.reserves(w[0], w[1]);
            let y = *v.last().unwrap();
            if ri == 0 || ro == 0 || y == 0 || y >= ro { return None }
            let fee = self.pairs[p]?.1;
            v.push((b(ri) * b(y) * b(SCALE) / (b(ro - y) * b(SCALE - fee)) + b(1)).to_u128()?);
        }
        v.reverse();
        Some(v)
    }
    /// execute the quoted amounts hop by hop; no hop may decrease the product of its pool
    pub fn swap(&mut self, u: usize, v: &[u128], path: &[usize], to: usize) -> Option<()> {
        if path.len() < 2 || self.led[u][path[0]] < v[0] { return None }
        self.led[u][path[0]] -= v[0];
        for (h, w) in path.windows(2).enumerate() {
            let p = pair_of(w[0], w[1])?;
            let before = self.product(p);
            self.led[3 + p][w[0]] += v[h];
            self.led[3 + p][w[1]] = self.led[3 + p][w[1]].checked_sub(v[h + 1])?;
            if self.product(p) < before { return None }
        }
        self.led[to][*path.last().unwrap()] += v.last().unwrap();
        Some(())
    }
}
#[derive(Clone)]
pub struct St { map: Map, m: Model }
#[derive(Clone, Debug)]
pub enum Op {
    Create(usize, u128), Add(usize, usize, usize, u128, u128), Remove(usize, usize, usize, u128, usize), In(usize, Vec<usize>, u128, usize), Out(usize, Vec<usize>, u128, usize),
    Receiver(bool), Point(u8), Rate(usize, u128), Donate(usize, usize, usize, u128),
}
pub struct Pools { start: Vec<(String, St)>, paths: Vec<Vec<usize>>, unit: u128, small: Vec<u128>, wide: bool }
const USERS: [u128; 3] = [1, 2, FEE];
fn observe(m: &Model) -> Result<(), (String, String)> {
    for (a, acc) in accounts().iter().enumerate() { for (c, cur) in currencies().iter().enumerate() {
        let got = bal(*cur, *acc);
        if got != m.led[a][c] { return Err((format!("ledger:{}", if a > 2 { "pool" } else if c > 2 { "lp" } else { "user" }), format!("account {} holds {} of currency {}, expected {}", ["user 1", "user 2", "fee receiver", "pool AB", "pool BC", "pool AC"][a], got, ["A", "B", "C", "LP AB", "LP BC", "LP AC"][c], m.led[a][c]))) }
    } }
    for p in 0..3 { if let Some((supply, _)) = m.pairs[p] {
        if issued(lp(p)) != supply { return Err(("lp-issuance".into(), format!("{} LP tokens of pool {} exist, expected {}", issued(lp(p)), p, supply))) }
        match Gen::pair_status((TOKENS[PAIRS[p].0], TOKENS[PAIRS[p].1])) { dex_general::PairStatus::Trading(x) if x.total_supply == supply => (), x => return Err(("recorded-supply".into(), format!("pool {} records {:?}, {} LP tokens exist", p, x, supply))) }
    } }
    Ok(())
}
fn toks(p: &[usize]) -> Vec<CurrencyId> { p.iter().map(|i| TOKENS[*i]).collect() }
impl Pools {
    fn new(unit: u128, paths: Vec<Vec<usize>>, small: Vec<u128>, wide: bool) -> Pools {
        let mut t = vec![];
        let mut led = [[0; 6]; 6];
        for u in 0..2 { for c in 0..3 { t.push((USERS[u], TOKENS[c], 20_000 * unit)); led[u][c] = 20_000 * unit; } }
        let map = genesis(&t);
        let (_, map) = mcstore::isolated(map, || System::set_block_number(5));
        let m = Model { led, pairs: [None; 3], klast: Default::default(), fee_to: false, point: 0 };
        Pools { start: vec![("no pools".into(), St { map, m })], paths, unit, small, wide }
    }
    fn scenario(&mut self, ctx: &mut Ctx, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        let mut done = vec![];
        for o in ops { done.push(format!("{:?}", o)); match self.step(&s, o) { Ok((n, _)) => s = n, Err((k, m)) => { ctx.fail(k, format!("{} after {}", m, done.join(" ; ")), done); return } } }
        self.start.push((name.into(), s));
    }
}
impl Machine for Pools {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let un = self.unit;
        let mut v = vec![Op::Receiver(!s.m.fee_to), Op::Point(if s.m.point == 0 { 5 } else { 0 })];
        for p in 0..3 {
            let (i, j) = PAIRS[p];
            if s.m.pairs[p].is_none() { if p < 2 || self.wide { v.push(Op::Create(p, 30)) } if p == 2 { v.push(Op::Add(0, i, j, un, un)) } continue }
            v.push(Op::Add(0, i, j, 100 * un, 100 * un));
            v.push(Op::Add(1, j, i, 300 * un + 1, 77 * un));
            if self.wide { v.push(Op::Add(1, i, j, 7, 900 * un)); }
            for u in 0..if self.wide { 3 } else { 2 } {
                let l = s.m.led[u][3 + p];
                if l > 0 { v.push(Op::Remove(u, i, j, l, u)); v.push(Op::Remove(u, j, i, l / 3 + 1, 1 - u.min(1))); }
            }
            v.push(Op::Remove(1, i, j, s.m.led[1][3 + p] + 1, 1));
            v.push(Op::Rate(p, if s.m.pairs[p].unwrap().1 == 30 { 2500 } else { 0 }));
            v.push(Op::Donate(0, p, i, 50 * un));
        }
        for (k, path) in self.paths.iter().enumerate() {
            for x in [37 * un, 400 * un] { v.push(Op::In(k % 2, path.clone(), x, (k + 1) % 2)); v.push(Op::Out((k + 1) % 2, path.clone(), x, k % 2)); }
            for x in &self.small { v.push(Op::In(0, path.clone(), *x, 0)); v.push(Op::Out(0, path.clone(), *x, 0)) }
        }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", s.m).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let m = &mut n.m;
            let judge = |r: Result<(), String>, ok: bool, what: &str| if r.is_ok() == ok { Ok(if ok { what.to_string() } else { format!("no {}", what) }) } else { Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, what), format!("{:?} is {}: {:?}", op, if ok { "refused" } else { "accepted" }, r))) };
            // an attempt that must not be accepted, whatever it does
            let refused = |f: &dyn Fn() -> DispatchResult, what: &str| { mcstore::begin(); let r = f(); mcstore::rollback(); if r.is_ok() { Err((format!("accepted:{}", what), format!("{:?} is accepted with {}", op, what))) } else { Ok(()) } };
            let label = match op.clone() {
                Op::Create(p, fee) => {
                    let (i, j) = PAIRS[p];
                    refused(&|| Gen::create_pair(signed(1), TOKENS[i], TOKENS[j], fee), "a user as origin")?;
                    refused(&|| Gen::create_pair(root(), TOKENS[i], TOKENS[j], 10_000), "a fee of 100%")?;
                    refused(&|| Gen::create_pair(root(), TOKENS[i], TOKENS[i], fee), "one asset twice")?;
                    let r = tx(|| Gen::create_pair(root(), TOKENS[j], TOKENS[i], fee));
                    m.pairs[p] = Some((0, fee));
                    let l = judge(r, true, "created pair")?;
                    refused(&|| Gen::create_pair(root(), TOKENS[i], TOKENS[j], fee), "the same pair again")?;
                    l
                }
                Op::Receiver(on) => { refused(&|| Gen::set_fee_receiver(signed(1), Some(1)), "a user as origin")?; m.fee_to = on; judge(tx(|| Gen::set_fee_receiver(root(), on.then_some(FEE))), true, "fee receiver")? }
                Op::Point(x) => { refused(&|| Gen::set_fee_point(signed(1), x), "a user as origin")?; m.point = x; judge(tx(|| Gen::set_fee_point(root(), x)), true, "fee point")? }
                Op::Rate(p, x) => {
                    let (i, j) = PAIRS[p];
                    refused(&|| Gen::set_exchange_fee(signed(1), TOKENS[i], TOKENS[j], x), "a user as origin")?;
                    refused(&|| Gen::set_exchange_fee(root(), TOKENS[i], TOKENS[j], 10_000), "a fee of 100%")?;
                    m.pairs[p].as_mut().unwrap().1 = x;
                    judge(tx(|| Gen::set_exchange_fee(root(), TOKENS[j], TOKENS[i], x)), true, "exchange fee")?
                }
                Op::Donate(u, p, c, x) => {
                    let r = tx(|| <Tokens as orml_traits::MultiCurrency<AccountId>>::transfer(TOKENS[c], &USERS[u], &pool(p), x));
                    let ok = m.mv(c, u, 3 + p, x).is_some();
                    if !ok { n.m = s.m.clone() }
                    judge(r, ok, "donation")?
                }
                Op::Add(u, i, j, d0, d1) => {
                    let add = |m0, m1, dl| Gen::add_liquidity(signed(USERS[u]), TOKENS[i], TOKENS[j], d0, d1, m0, m1, dl);
                    refused(&|| add(0, 0, 5), "an expired deadline")?;
                    let before = m.clone();
                    let want = m.add(u, i, j, (d0, d1));
                    let (r0, r1) = before.reserves(i, j);
                    let mut mins = (0, 0);
                    if let (Some((a0, a1, _)), true) = (want, r0 > 0 && r1 > 0) {
                        // the minimum binds on the amount that is scaled down
                        if a1 < d1 { refused(&|| add(0, a1 + 1, 6), "a minimum that is missed")? }
                        if a0 < d0 { refused(&|| add(a0 + 1, 0, 6), "a minimum that is missed")? }
                        mins = (a0, a1);
                    }
                    let r = tx(|| add(mins.0, mins.1, 6));
                    if want.is_none() { n.m = before } else {
                        let p = pair_of(i, j).unwrap();
                        // the value of an LP token does not fall, but for the fee minted before
                        let (sb, sa) = (m.led[2][3 + p] - before.led[2][3 + p] + before.pairs[p].unwrap().0, m.pairs[p].unwrap().0);
                        if m.product(p) * b(sb) * b(sb) < before.product(p) * b(sa) * b(sa) { return Err(("model".into(), "the reference itself dilutes providers".into())) }
                    }
                    judge(r, want.is_some(), "added liquidity")?
                }
                Op::Remove(u, i, j, l, to) => {
                    let rm = |m0, m1, dl| Gen::remove_liquidity(signed(USERS[u]), TOKENS[i], TOKENS[j], l, m0, m1, USERS[to], dl);
                    refused(&|| rm(0, 0, 5), "an expired deadline")?;
                    let before = m.clone();
                    let want = m.remove(u, i, j, l, to);
                    let mut mins = (0, 0);
                    if let Some((a0, a1)) = want {
                        refused(&|| rm(a0 + 1, 0, 6), "a minimum that is missed")?;
                        refused(&|| rm(0, a1 + 1, 6), "a minimum that is missed")?;
                        mins = (a0, a1);
                    }
                    let r = tx(|| rm(mins.0, mins.1, 6));
                    if want.is_none() { n.m = before }
                    judge(r, want.is_some(), "removed liquidity")?
                }
                Op::In(u, path, x, to) => {
                    let t = toks(&path);
                    let want = m.quote_out(x, &path);
                    let q = Gen::get_amount_out_by_path(x, &t).ok();
                    if q != want { return Err(("quote-out".into(), format!("selling {} along {:?} is quoted {:?}, expected {:?}", x, path, q, want))) }
                    let sell = |min, dl| Gen::swap_exact_assets_for_assets(signed(USERS[u]), x, min, t.clone(), USERS[to], dl);
                    refused(&|| sell(0, 5), "an expired deadline")?;
                    let before = m.clone();
                    let ok = want.as_ref().and_then(|v| m.swap(u, v, &path, to)).is_some();
                    if !ok { n.m = before; }
                    let min = want.as_ref().map(|v| *v.last().unwrap()).unwrap_or(0);
                    refused(&|| sell(min + 1, 6), "a minimum that is missed")?;
                    judge(tx(|| sell(min, 6)), ok, if path.len() == 2 { "sale" } else { "sale along a path" })?
                }
                Op::Out(u, path, y, to) => {
                    let t = toks(&path);
                    let want = m.quote_in(y, &path);
                    let q = Gen::get_amount_in_by_path(y, &t).ok();
                    if q != want { return Err(("quote-in".into(), format!("buying {} along {:?} is quoted {:?}, expected {:?}", y, path, q, want))) }
                    let buy = |max, dl| Gen::swap_assets_for_exact_assets(signed(USERS[u]), y, max, t.clone(), USERS[to], dl);
                    refused(&|| buy(u128::MAX, 5), "an expired deadline")?;
                    let before = m.clone();
                    let ok = want.as_ref().and_then(|v| m.swap(u, v, &path, to)).is_some();
                    if !ok { n.m = before; }
                    let max = want.as_ref().map(|v| v[0]).unwrap_or(u128::MAX);
                    if want.is_some() { refused(&|| buy(max - 1, 6), "a maximum that is exceeded")? }
                    judge(tx(|| buy(max, 6)), ok, if path.len() == 2 { "purchase" } else { "purchase along a path" })?
                }
            };
            // from the balances alone: no swap makes a pool's product smaller, whatever else happened
            if matches!(op, Op::In(..) | Op::Out(..)) { for p in 0..3 {
                let (i, j) = PAIRS[p];
                if b(bal(TOKENS[i], pool(p))) * b(bal(TOKENS[j], pool(p))) < s.m.product(p) { return Err(("product".into(), format!("{:?} shrinks the reserves of pool {} from {:?} to {:?}", op, p, s.m.reserves(i, j), (bal(TOKENS[i], pool(p)), bal(TOKENS[j], pool(p)))))) }
            } }
            observe(&n.m)?;
            Ok(label)
        });
        n.map = map;
        r.map(|l| (n, l))
    }
}
pub fn x01(ctx: &mut Ctx) {
    let all = vec![vec![0, 1], vec![1, 0], vec![0, 1, 2], vec![2, 1, 0], vec![0, 1, 0], vec![0, 1, 2, 0, 1], vec![0, 2], vec![1]];
    for (unit, name) in [(1, "small amounts"), (1_000_000_000_000_007, "large amounts"), (1u128 << 96, "huge amounts")] {
        let mut p = Pools::new(unit, all.clone(), if unit == 1 { vec![1, 3] } else { vec![5] }, false);
        let u = unit;
        let open = vec![Op::Create(0, 30), Op::Create(1, 30), Op::Create(2, 100), Op::Add(0, 0, 1, 1000 * u, 4000 * u), Op::Add(1, 2, 1, 2500 * u, 3000 * u), Op::Add(1, 0, 2, 700 * u, 1500 * u)];
        let with = |x: &[Op]| { let mut v = open.clone(); v.extend_from_slice(x); v };
        p.scenario(ctx, "three pools", &open);
        p.scenario(ctx, "no exchange fee", &with(&[Op::Rate(0, 0), Op::Rate(1, 0), Op::Rate(2, 0)]));
        p.scenario(ctx, "protocol fee", &with(&[Op::Receiver(true), Op::Point(5), Op::Rate(0, 2500), Op::Add(1, 0, 1, 100 * u, 1000 * u), Op::In(1, vec![0, 1], 900 * u, 1)]));
        p.scenario(ctx, "protocol fee, all of it", &with(&[Op::Receiver(true), Op::Rate(0, 2500), Op::Add(0, 0, 1, 100 * u, 1000 * u), Op::In(1, vec![1, 0], 900 * u, 1), Op::In(0, vec![0, 1], 300 * u, 1)]));
        p.scenario(ctx, "protocol fee off again", &with(&[Op::Receiver(true), Op::Add(0, 0, 1, 100 * u, 1000 * u), Op::In(1, vec![1, 0], 900 * u, 1), Op::Receiver(false)]));
        p.scenario(ctx, "emptied and donated to", &with(&[Op::Remove(0, 0, 1, p_lp(1000 * u, 4000 * u), 0), Op::Donate(0, 0, 0, 50 * u)]));
        let depth = ctx.pick(if unit == 1 { 3 } else { 2 }, if unit == 1 { 4 } else { 3 });
        let n = bfs(ctx, &p, depth, ctx.pick(3_000_000, 12_000_000));
        ctx.bound(format!("{}: {} scenarios, all histories up to {} further operations over three pools of three assets, {} paths: {} states", name, p.start.len(), depth, p.paths.len(), n));
    }
    crate::bootstrap::check(ctx);
}
fn p_lp(x: u128, y: u128) -> u128 { (b(x) * b(y)).sqrt().to_u128().unwrap() }
