//! S01: every history of feeds, authorisations and blocks against the median of what is fresh.
use rt::System;
use frame_support::{traits::Hooks, BoundedVec};
use kit::{System as Machine, *};
use mcstore::Map;
use oracle::OracleKey;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};

const KEYS: [OracleKey; 2] = [OracleKey::ExchangeRate(COL), OracleKey::FeeEstimation];
const DELAY: u64 = 10;
#[derive(Clone)]
pub struct St { map: Map, now: u64, allowed: BTreeSet<u128>, raw: [BTreeMap<u128, (u128, u64)>; 2], price: [Option<u128>; 2] }
#[derive(Clone, Debug)]
pub enum Op { Feed(u128, Vec<(usize, u128)>), Allow(u128), Disallow(u128), AllowBy(u128, u128), DisallowBy(u128, u128), Block(u64) }
pub struct Prices { start: Vec<(String, St)>, values: Vec<u128>, oracles: Vec<u128>, steps: Vec<u64> }
/// the middle value, or the rounded down average of the two middle values
fn median(mut v: Vec<u128>) -> Option<u128> {
    v.sort();
    let n = v.len();
    if n == 0 { None } else if n % 2 == 1 { Some(v[n / 2]) } else { let (a, b) = (v[n / 2 - 1], v[n / 2]); Some(a / 2 + b / 2 + (a % 2 + b % 2) / 2) }
}
fn mul(a: u128, price: u128) -> Option<u128> { use num_traits::ToPrimitive; (num_bigint::BigUint::from(a) * price / 1_000_000_000_000_000_000u128).to_u128() }
fn div(a: u128, price: u128) -> Option<u128> { use num_traits::ToPrimitive; if a == 0 { return Some(0) } if price == 0 { return None } (num_bigint::BigUint::from(a) * 1_000_000_000_000_000_000u128 / price).to_u128() }
impl Prices {
    fn new(oracles: Vec<u128>, values: Vec<u128>, steps: Vec<u64>) -> Prices {
        let g = Genesis { vaults: 0, difficulty_check: true, ..Default::default() }.build();
        let (_, map) = mcstore::isolated(g, || {
            for k in [&[][..]] { let _: &[u8] = k; }
            // a delay of ten, and no values from the genesis of the runtime
            let mut key = sp_core::twox_128(b"Oracle").to_vec();
            for k in mcstore::keys_with_prefix(&key) { mcstore::kill(&k) }
            key.extend_from_slice(&sp_core::twox_128(b"MaxDelay"));
            mcstore::put(&key, &codec::Encode::encode(&DELAY));
            Timestamp::set_timestamp(100);
            Oracle::insert_authorized_oracle(root(), oracles[0], name()).unwrap();
        });
        let s = St { map, now: 100, allowed: BTreeSet::from([oracles[0]]), raw: Default::default(), price: [None; 2] };
        let mut p = Prices { start: vec![("one oracle".into(), s.clone())], values, oracles: oracles.clone(), steps };
        let mut all = s;
        for o in &oracles[1..] { all = p.step(&all, &Op::Allow(*o)).expect("authorise").0 }
        p.start.push(("all oracles".into(), all.clone()));
        for o in &oracles { all = p.step(&all, &Op::Feed(*o, vec![(0, p.values[0])])).expect("feed").0 }
        p.start.push(("all oracles with values".into(), all));
        p
    }
    fn compare(&self, s: &St) -> Result<(), (String, String)> {
        for (i, k) in KEYS.iter().enumerate() {
            let got = Oracle::get_price(k.clone()).ok().map(|x| x.into_inner());
            if got != s.price[i] { return Err((if got.is_some() && s.price[i].is_none() { "stale-price" } else { "price" }.into(), format!("{:?} is {:?}, expected {:?} at {} from {:?}", k, got, s.price[i], s.now, s.raw[i]))) }
        }
        for a in [0u128, 1, 7, 1_000_000_007, u128::MAX / 3] {
            let p = s.price[0];
            let there = Oracle::wrapped_to_collateral(a, COL).ok();
            if there != p.and_then(|p| mul(a, p)) { return Err(("to-collateral".into(), format!("{} wrapped are {:?} collateral at {:?}", a, there, p))) }
            let back = Oracle::collateral_to_wrapped(a, COL).ok();
            if back != p.and_then(|p| div(a, p)) { return Err(("to-wrapped".into(), format!("{} collateral are {:?} wrapped at {:?}", a, back, p))) }
            let am = |x: u128, c: CurrencyId| Amount::<Test>::new(x, c);
            use traits::OracleApi;
            let conv = |x: u128, c: CurrencyId, d: CurrencyId| <Oracle as OracleApi<Amount<Test>, CurrencyId>>::convert(&am(x, c), d).ok().map(|y| (y.amount(), y.currency()));
            let want = |v: Option<u128>, d: CurrencyId| v.map(|v| (v, d));
            for (c, d, w) in [(WRAPPED, COL, there), (COL, WRAPPED, back), (COL, COL, Some(a)), (WRAPPED, WRAPPED, Some(a))] {
                if conv(a, c, d) != want(w, d) { return Err(("convert".into(), format!("{} {:?} are converted to {:?}, expected {:?} {:?}", a, c, conv(a, c, d), w, d))) }
            }
            // no price was ever fed for this one
            if a > 0 && (conv(a, COL, COL2).is_some() || conv(a, COL2, WRAPPED).is_some() || conv(a, WRAPPED, COL2).is_some()) { return Err(("convert-unpriced".into(), "converted a currency without a price".into())) }
        }
        Ok(())
    }
}
fn name() -> BoundedVec<u8, frame_support::traits::ConstU32<255>> { BoundedVec::truncate_from(b"n".to_vec()) }
impl Machine for Prices {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, _: &St) -> Vec<Op> {
        let mut v: Vec<Op> = self.steps.iter().map(|d| Op::Block(*d)).collect();
        for o in &self.oracles { for x in &self.values { v.push(Op::Feed(*o, vec![(0, *x)])) } v.push(Op::Allow(*o)); v.push(Op::Disallow(*o)) }
        v.push(Op::Feed(self.oracles[0], vec![(1, self.values[1]), (0, self.values[1])]));
        v.push(Op::Feed(self.oracles[1], vec![(1, self.values[0])]));
        v.push(Op::Feed(self.oracles[1], vec![(0, self.values[0]), (0, self.values[1])]));
        v.push(Op::Feed(99, vec![(0, self.values[0])]));
        v.push(Op::AllowBy(self.oracles[0], 99));
        v.push(Op::DisallowBy(99, self.oracles[0]));
        v
    }
    fn key(&self, s: &St) -> u128 {
        // only differences to the current time matter
        let raw: Vec<Vec<(u128, u128, u64)>> = s.raw.iter().map(|r| r.iter().map(|(o, (v, t))| (*o, *v, (s.now - t).min(DELAY + 2))).collect()).collect();
        let valid: Vec<u64> = (0..2).map(|i| s.raw[i].values().map(|x| x.1).min().unwrap_or(0)).map(|t| (s.now - t.min(s.now)).min(DELAY + 2)).collect();
        let store: Vec<_> = mcstore::isolated(s.map.clone(), || { let p = sp_core::twox_128(b"Oracle"); let u = sp_core::twox_128(b"RawValuesUpdated"); mcstore::keys_with_prefix(&[&p[..], &u[..]].concat()).iter().map(|k| mcstore::get(k)).collect::<Vec<_>>() }).0;
        fp(format!("{:?}{:?}{:?}{:?}{:?}", s.allowed, raw, s.price, valid, store).as_bytes())
    }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let e = |x: Result<(), String>, ok: bool, what: &str| if x.is_ok() == ok { Ok(()) } else { Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, what), format!("{} {:?}: {:?}", what, op, x))) };
            let label = match op {
                Op::Feed(o, v) => {
                    let ok = s.allowed.contains(o);
                    e(tx(|| Oracle::feed_values(signed(*o), v.iter().map(|(k, x)| (KEYS[*k].clone(), FixedU128::from_inner(*x))).collect()).map(|_| ()).map_err(|e| err_name(&e.error))), ok, "feed")?;
                    if ok { for (k, x) in v { n.raw[*k].insert(*o, (*x, s.now)); } "values fed" } else { "feed refused" }
                }
                Op::Allow(o) => { e(tx(|| Oracle::insert_authorized_oracle(root(), *o, name()).map_err(|e| err_name(&e))), true, "authorise")?; n.allowed.insert(*o); "authorised" }
                Op::Disallow(o) => { e(tx(|| Oracle::remove_authorized_oracle(root(), *o).map_err(|e| err_name(&e))), true, "remove")?; n.allowed.remove(o); "removed" }
                Op::AllowBy(by, o) => { e(tx(|| Oracle::insert_authorized_oracle(signed(*by), *o, name()).map_err(|e| err_name(&e))), false, "authorise")?; "not authorised" }
                Op::DisallowBy(by, o) => { e(tx(|| Oracle::remove_authorized_oracle(signed(*by), *o).map_err(|e| err_name(&e))), false, "remove")?; "not removed" }
                Op::Block(d) => {
                    let h = System::block_number() + 1;
                    System::set_block_number(h);
                    Oracle::on_initialize(h);
                    for i in 0..2 { n.price[i] = median(s.raw[i].values().filter(|x| x.1 + DELAY >= s.now).map(|x| x.0).collect()) }
                    n.now += d;
                    Timestamp::set_timestamp(n.now);
                    match (s.price[0], n.price[0]) { (a, b) if a == b => "same price", (_, None) => "price expires", (None, _) => "price appears", _ => "price changes" }
                }
            };
            self.compare(&n)?;
            Ok(label.into())
        });
        n.map = map;
        Ok((n, r?))
    }
}
pub fn s01(ctx: &mut Ctx) {
    let one = 1_000_000_000_000_000_000u128;
    for (what, m, d) in [
        ("small values", Prices::new(vec![1, 2, 3], vec![one, 2 * one + 1, 5 * one], vec![1, DELAY, DELAY + 1]), ctx.pick(5, 7)),
        ("extreme values", Prices::new(vec![1, 2], vec![0, 1, u128::MAX, u128::MAX - 2], vec![1, DELAY + 1]), ctx.pick(5, 7)),
        ("four oracles", Prices::new(vec![1, 2, 3, 4], vec![one / 3, 7 * one], vec![5, DELAY]), ctx.pick(5, 7)),
    ] {
        let n = bfs(ctx, &m, d, 3_000_000);
        ctx.bound(format!("{}: {} oracles, values {:?}, {} operations from {} starting states, time steps {:?} with an expiry of {}, {} states", what, m.oracles.len(), m.values, d, m.start.len(), m.steps, DELAY, n));
    }
    ctx.assume("the block hook runs before the timestamp of the block is set, as in the runtime");
}
