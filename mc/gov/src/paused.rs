//! G02: every sequence of pausing and unpausing over an alphabet of names; in every state every call is dispatched directly and through every nesting.
use crate::soc::System;
use crate::soc::*;
use frame_support::{dispatch::Dispatchable, traits::{Contains, Get}, BoundedVec};
use kit::{System as Machine, *};
use mcstore::Map;
use std::collections::BTreeSet;
use tx_pause::FullNameOf;

type Name = (&'static str, Option<&'static str>);
const NAMES: [Name; 14] = [
    ("Balances", None), ("Balances", Some("transfer")), ("Balances", Some("transfer_keep_alive")), ("Utility", Some("batch")), ("Proxy", None), ("Proxy", Some("add_proxy")),
    ("Escrow", None), ("Escrow", Some("create_lock")), ("TxPause", None), ("TxPause", Some("unpause")), ("Preimage", Some("note_preimage")), ("Nowhere", None), ("Utility", None), ("Preimage", Some("transfer")),
];
fn full(n: &Name) -> FullNameOf<Test> { (n.0.as_bytes().to_vec().try_into().unwrap(), n.1.map(|c| c.as_bytes().to_vec().try_into().unwrap())) }
/// the rule: not exempt, and the whole pallet or this call is in the set
fn paused(set: &BTreeSet<Name>, n: &Name) -> bool { !whitelisted(n.0.as_bytes(), n.1.map(|c| c.as_bytes())) && (set.contains(&(n.0, None)) || set.contains(n)) }
/// is the call refused by the filter
fn refused(set: &BTreeSet<Name>, long: bool, p: &'static str, c: &'static str) -> bool { if p.len() > NAME_LEN as usize || c.len() > NAME_LEN as usize { long } else { paused(set, &(p, Some(c))) } }
#[derive(Clone)]
pub struct St { map: Map, set: BTreeSet<Name> }
#[derive(Clone, Debug)]
pub enum Op { Pause(bool, usize), Unpause(bool, usize) }
pub struct Pauses { names: Vec<usize>, long: bool }
const LEAVES: usize = 6;
/// (pallet, name, call) of the leaf, and whether it had its effect for `who`
fn leaf(i: usize) -> (&'static str, &'static str, RuntimeCall) {
    match i {
        0 => ("Balances", "transfer", RuntimeCall::Balances(pallet_balances::Call::transfer { dest: 50, value: 7 })),
        1 => ("Balances", "transfer_keep_alive", RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: 50, value: 7 })),
        2 => ("Escrow", "create_lock", RuntimeCall::Escrow(escrow::Call::create_lock { amount: 60, unlock_height: 20 })),
        3 => ("Preimage", "note_preimage", RuntimeCall::Preimage(pallet_preimage::Call::note_preimage { bytes: vec![1, 2, 3] })),
        4 => ("Proxy", "add_proxy", RuntimeCall::Proxy(pallet_proxy::Call::add_proxy { delegate: 60, proxy_type: ProxyType::Any, delay: 0 })),
        _ => ("Utility", "batch", RuntimeCall::Utility(pallet_utility::Call::batch { calls: vec![] })),
    }
}
fn done(i: usize, who: u128) -> Option<bool> {
    Some(match i {
        0 | 1 => Balances::free_balance(50) == 7,
        2 => Escrow::balance_at(&who, None) > 0,
        3 => pallet_preimage::PreimageFor::<Test>::contains_key(frame_support::traits::PreimageHash::from(sp_core::blake2_256(&[1, 2, 3]))),
        4 => pallet_proxy::Proxies::<Test>::get(who).iter().any(|p| p.0 == 60),
        _ => return None,
    })
}
/// how the leaf is wrapped: the wrapping calls from the outside in, the resulting call, and for whom the leaf runs
fn wrap(w: usize, c: RuntimeCall) -> (Vec<(&'static str, &'static str)>, RuntimeCall, u128) {
    let batch = |c| RuntimeCall::Utility(pallet_utility::Call::batch { calls: vec![c] });
    let proxy = |c| RuntimeCall::Proxy(pallet_proxy::Call::proxy { real: 2, force_proxy_type: None, call: Box::new(c) });
    const B: (&str, &str) = ("Utility", "batch");
    const P: (&str, &str) = ("Proxy", "proxy");
    match w {
        0 => (vec![], c, 1),
        1 => (vec![B], batch(c), 1),
        2 => (vec![("Utility", "batch_all")], RuntimeCall::Utility(pallet_utility::Call::batch_all { calls: vec![c] }), 1),
        3 => (vec![("Utility", "force_batch")], RuntimeCall::Utility(pallet_utility::Call::force_batch { calls: vec![leaf(3).2, c] }), 1),
        4 => (vec![P], proxy(c), 2),
        5 => (vec![B, P], batch(proxy(c)), 2),
        6 => (vec![P, B], proxy(batch(c)), 2),
        _ => (vec![B, B], batch(batch(c)), 1),
    }
}
impl Machine for Pauses {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> {
        let (_, map) = mcstore::isolated(genesis(&[(1, 1000), (2, 1000)]), || { System::set_block_number(1); Proxy::add_proxy(signed(2), 1, ProxyType::Any, 0).unwrap() });
        vec![("nothing paused".into(), St { map, set: Default::default() })]
    }
    fn ops(&self, _: &St) -> Vec<Op> {
        let mut v = vec![Op::Pause(false, self.names[0]), Op::Unpause(false, self.names[0])];
        for n in &self.names { v.push(Op::Pause(true, *n)); v.push(Op::Unpause(true, *n)) }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", s.set).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        LONG.with(|l| l.set(self.long));
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let origin = |r: bool| if r { root() } else { signed(1) };
            let (ok, res, label) = match *op {
                Op::Pause(r, i) => {
                    let x = NAMES[i];
                    let ok = r && x.0 != "TxPause" && !paused(&s.set, &x) && !whitelisted(x.0.as_bytes(), x.1.map(|c| c.as_bytes()));
                    if ok { n.set.insert(x); }
                    (ok, tx(|| RuntimeCall::TxPause(tx_pause::Call::pause { full_name: full(&x) }).dispatch(origin(r)).map(|_| ()).map_err(|e| err_name(&e.error))), "pause")
                }
                Op::Unpause(r, i) => {
                    let x = NAMES[i];
                    let ok = r && paused(&s.set, &x);
                    if ok { n.set.remove(&x); }
                    (ok, tx(|| RuntimeCall::TxPause(tx_pause::Call::unpause { full_name: full(&x) }).dispatch(origin(r)).map(|_| ()).map_err(|e| err_name(&e.error))), "unpause")
                }
            };
            if res.is_ok() != ok { return Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, label), format!("{:?} with {:?} paused: {:?}", op, s.set, res))) }
            for (i, x) in NAMES.iter().enumerate() {
                if TxPause::is_paused(&full(x)) != paused(&n.set, x) { return Err(("is-paused".into(), format!("after {:?}, {:?} (number {}) is reported paused: {}", op, x, i, TxPause::is_paused(&full(x))))) }
                if TxPause::paused_calls(full(x)).is_some() != n.set.contains(x) { return Err(("paused-set".into(), format!("after {:?}, {:?} recorded as paused: {}", op, x, TxPause::paused_calls(full(x)).is_some()))) }
            }
            // every call, along every path
            for l in 0..LEAVES { for w in 0..8 {
                let (p, c, call) = leaf(l);
                if w == 3 && l == 3 { continue }
                let (path, call, who) = wrap(w, call);
                let outer = path.first().copied().unwrap_or((p, c));
                let stop = path.iter().chain([&(p, c)]).any(|(p, c)| refused(&n.set, self.long, p, c));
                mcstore::begin();
                let allowed = <TxPause as Contains<RuntimeCall>>::contains(&call);
                let other = !done(3, 1).unwrap();
                let r = tx(|| call.dispatch(signed(1)).map(|_| ()).map_err(|e| err_name(&e.error)));
                let (did, beside) = (done(l, who), done(3, 1).unwrap());
                mcstore::rollback();
                let what = || format!("{}::{} through {:?} with {:?} paused: {:?}, executed: {:?}", p, c, path, n.set, r, did);
                if allowed == refused(&n.set, self.long, outer.0, outer.1) { return Err(("filter".into(), format!("{}::{} allowed: {}", outer.0, outer.1, allowed))) }
                if refused(&n.set, self.long, outer.0, outer.1) != (r == Err("CallFiltered".to_string())) && w != 2 { return Err(("refusal".into(), what())) }
                if w == 2 && r.is_err() != stop { return Err(("refusal".into(), what())) }
                if let Some(d) = did { if d == stop { return Err((if d { "executed" } else { "not-executed" }.into(), what())) } }
                // the call next to it in the batch is judged by itself
                if w == 3 && other && beside != !(refused(&n.set, self.long, "Utility", "force_batch") || refused(&n.set, self.long, "Preimage", "note_preimage")) { return Err(("beside".into(), what())) }
            } }
            // names longer than the limit follow the configured rule, and root is not filtered
            let long = RuntimeCall::ClientsInfo(clients_info::Call::set_pending_client_release { client_name: BoundedVec::try_from(b"v".to_vec()).unwrap(), release: clients_info::ClientRelease { uri: Default::default(), checksum: Default::default() } });
            if <TxPause as Contains<RuntimeCall>>::contains(&long) == TooLong::get() { return Err(("long-names".into(), "a call with a name beyond the limit does not follow the configured rule".into())) }
            mcstore::begin();
            let r = long.dispatch(root());
            let done = ClientsInfo::pending_client_release(BoundedVec::try_from(b"v".to_vec()).unwrap()).is_some();
            mcstore::rollback();
            if r.is_err() || !done { return Err(("root".into(), format!("root was refused: {:?}", r.map(|_| ())))) }
            Ok(if ok { label.into() } else { format!("no {}", label) })
        });
        let label = r?;
        n.map = map;
        Ok((n, label))
    }
}
pub fn g02(ctx: &mut Ctx) {
    let all: Vec<usize> = (0..NAMES.len()).collect();
    for (m, d) in [(Pauses { names: all.clone(), long: false }, 14), (Pauses { names: vec![0, 1, 2, 5, 7, 9], long: true }, 8)] {
        let n = bfs(ctx, &m, d, 3_000_000);
        ctx.bound(format!("all sequences of {} pauses and unpauses over {} names (too long names paused: {}), {} sets reached, each with {} calls along 8 paths", d, m.names.len(), m.long, n, LEAVES));
    }
    ctx.assume("utility batches and proxies are those of the shim (dispatch through the runtime's call filter)");
}
