//! S02: the active block counter, expiry, and secure ids.
use rt::System;
use frame_support::traits::Hooks;
use kit::{System as Machine, *};
use mcstore::Map;
use rt::*;
use std::collections::HashMap;

#[derive(Clone)]
pub struct St { map: Map, height: u64, active: u64, on: bool, ids: Vec<(H256, u128)>, opened: Vec<(u64, u32)>, btc: u32 }
#[derive(Clone, Debug)]
pub enum Op { Block, Switch(bool), SwitchBy(bool), Id(u128), Open, Btc }
pub struct Counter { start: Vec<(String, St)>, ids: bool }
const PERIODS: [u64; 6] = [0, 1, 2, 4, 5, 6];
impl Counter {
    fn new(ids: bool) -> Counter {
        let g = Genesis { vaults: 0, ..Default::default() }.build();
        let (s, map) = mcstore::isolated(g, || St { map: Default::default(), height: System::block_number(), active: Security::active_block_number(), on: true, ids: vec![], opened: vec![], btc: BTCRelay::get_best_block_height() });
        Counter { start: vec![("genesis".into(), St { map, ..s })], ids }
    }
}
impl Machine for Counter {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Block, Op::Switch(true), Op::Switch(false), Op::SwitchBy(true), Op::SwitchBy(false)];
        if self.ids { v.push(Op::Id(1)); v.push(Op::Id(2)) } else { if s.opened.len() < 2 { v.push(Op::Open) } v.push(Op::Btc) }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (s.height, s.active, s.on, &s.ids, &s.opened, s.btc)).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let label = match op {
                Op::Block => {
                    n.height += 1;
                    if s.on { n.active += 1 }
                    System::set_block_number(n.height);
                    Security::on_initialize(n.height);
                    if s.on { "counted block" } else { "uncounted block" }
                }
                Op::Switch(b) => { tx(|| Security::activate_counter(root(), *b)).map_err(|e| ("switch".to_string(), err_name(&e)))?; n.on = *b; "switched" }
                Op::SwitchBy(b) => { if tx(|| Security::activate_counter(signed(1), *b)).is_ok() { return Err(("origin".into(), "an ordinary account switched the counter".into())) } "not switched" }
                Op::Id(a) => {
                    let id = Security::get_secure_id(a);
                    if let Some((_, b)) = s.ids.iter().find(|x| x.0 == id) { return Err(("repeated-id".into(), format!("the id {:?} for account {} was given before to {}", id, a, b))) }
                    n.ids.push((id, *a));
                    "new id"
                }
                Op::Open => { n.opened.push((s.active, s.btc)); "request opened" }
                Op::Btc => { btc::mine_n(1); n.btc += 1; "bitcoin block" }
            };
            if Security::active_block_number() != n.active { return Err(("count".into(), format!("{} active blocks, expected {}", Security::active_block_number(), n.active))) }
            for (open, btc_open) in &n.opened { for p in PERIODS {
                let para = n.active > open + p;
                let got = Security::parachain_block_expired(*open, p);
                if got != Ok(para) { return Err(("expiry-active".into(), format!("opened at {}, period {}, now {}: {:?}", open, p, n.active, got))) }
                // as many Bitcoin blocks as the period has, at five parachain blocks each, rounded up
                let need = ((p + 4) / 5) as u32;
                let want = para && n.btc > btc_open + need;
                let got = BTCRelay::has_request_expired(*open, *btc_open, p);
                if got != Ok(want) { return Err(("expiry".into(), format!("opened at {} and Bitcoin height {}, period {}, now {} and {}: {:?}", open, btc_open, p, n.active, n.btc, got))) }
            } }
            Ok(label.into())
        });
        n.map = map;
        Ok((n, r?))
    }
}
pub fn s02(ctx: &mut Ctx) {
    for ids in [false, true] {
        let m = Counter::new(ids);
        let d = if ids { ctx.pick(8, 10) } else { ctx.pick(11, 14) };
        let n = bfs(ctx, &m, d, 2_000_000);
        ctx.bound(format!("all histories of {} steps over blocks, switching by root and others, {}: {} states", d, if ids { "ids for two accounts" } else { "requests and Bitcoin blocks, expiry for all periods 0 to 6" }, n));
    }
    // expiry at the edges of the number range
    let g = Genesis { vaults: 0, ..Default::default() }.build();
    mcstore::isolated(g, || {
        let edge = [0u64, 1, 2, 4, 5, 6, 9, 10, 11, u32::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 * 5, u64::MAX - 4, u64::MAX - 1, u64::MAX];
        for now in edge { for open in edge { for p in edge {
            Security::set_active_block_number(now);
            let got = guard(|| Security::parachain_block_expired(open, p).ok());
            let want = open.checked_add(p).map(|e| now > e);
            ctx.case(1);
            ctx.ensure("edge", got == Ok(want), || format!("expiry of {} + {} at {}: {:?}, expected {:?}", open, p, now, got, want));
            for b in [0u32, 1, 7, u32::MAX - 1, u32::MAX] {
                let got = guard(|| BTCRelay::has_request_expired(open, b, p).ok());
                let need = p.checked_add(4).map(|x| x / 5).and_then(|x| u32::try_from(x).ok()).and_then(|x| b.checked_add(x));
                let want = match want { None => None, Some(false) => Some(false), Some(true) => need.map(|h| BTCRelay::get_best_block_height() > h) };
                ctx.case(1);
                // an arithmetic failure may surface although the other condition already decides
                ctx.ensure("edge-bitcoin", got == Ok(want) || (need.is_none() && got == Ok(None)), || format!("expiry of {} + {} at {} with Bitcoin height {}: {:?}, expected {:?}", open, p, now, b, got, want));
            }
        } } }
        // ids of many accounts in one block, across blocks and with a nonce about to wrap
        let mut seen: HashMap<H256, (u128, u64)> = HashMap::new();
        let rounds = ctx.pick(40u64, 400);
        for h in 0..rounds { System::set_block_number(h); for a in 0..500u128 {
            let a = if a % 2 == 0 { a } else { u128::MAX - a };
            let id = Security::get_secure_id(&a);
            ctx.case(1);
            if let Some(o) = seen.insert(id, (a, h)) { ctx.fail("repeated-id", format!("id {:?} for {} in block {} was given to {:?} before", id, a, h, o), vec![]) }
        } }
        let mut key = sp_core::twox_128(b"Security").to_vec();
        key.extend_from_slice(&sp_core::twox_128(b"Nonce"));
        mcstore::put(&key, &[0xff; 32]);
        let a = guard(|| (Security::get_secure_id(&1), Security::get_secure_id(&1)));
        ctx.ensure("wrap", matches!(a, Ok((x, y)) if x != y), || format!("ids around the end of the nonce range: {:?}", a));
    });
    ctx.bound("secure ids of 500 accounts in 40 (thorough 400) blocks");
    ctx.assume("sha256 does not collide");
}
