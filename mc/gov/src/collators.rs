//! G03: every history of registering, leaving, governance changes, authored and idle blocks over sessions.
use crate::soc::System;
use crate::soc::*;
use frame_support::traits::{Currency, Hooks, ReservableCurrency};
use kit::{System as Machine, *};
use mcstore::Map;
use std::collections::BTreeMap;

/// 1 to 3 have voting power and keys (that of 3 runs out), 4 has power but no keys, 5 has keys but no power, 6 and 7 are the usual invulnerables
const ACCOUNTS: [AccountId; 7] = [1, 2, 3, 4, 5, 6, 7];
#[derive(Clone, Debug)]
pub struct St {
    map: Map, h: u64, inv: Vec<AccountId>, cand: Vec<(AccountId, u128)>, bond: u128, desired: u32, last: BTreeMap<AccountId, u64>,
    /// the authors of this session and of the next
    now: Vec<AccountId>, next: Vec<AccountId>, pot: u128, paid: BTreeMap<AccountId, u128>,
}
#[derive(Clone, Debug)]
pub enum Op { Register(AccountId), Leave(AccountId), Block(Option<AccountId>), Bond(bool, u128), Desired(bool, u32), Invulnerables(bool, Vec<AccountId>), Fund(u128) }
pub struct Coll { start: Vec<(String, St)>, who: Vec<AccountId>, inv: Vec<Vec<AccountId>>, bonds: Vec<u128>, desired: Vec<u32> }
fn sorted(v: &[AccountId]) -> Vec<AccountId> { let mut v = v.to_vec(); v.sort(); v }
impl Coll {
    fn new(who: Vec<AccountId>, inv: Vec<Vec<AccountId>>, bonds: Vec<u128>, desired: Vec<u32>) -> Coll {
        let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
        let pot = CollatorSelection::account_id();
        pallet_balances::GenesisConfig::<Test> { balances: ACCOUNTS.iter().map(|a| (*a, 1000)).chain([(pot, ED), (99, 1000)]).collect() }.assimilate_storage(&mut s).unwrap();
        collator_selection::GenesisConfig::<Test> { invulnerables: vec![6], candidacy_bond: 20, desired_candidates: 2 }.assimilate_storage(&mut s).unwrap();
        pallet_session::GenesisConfig::<Test> { keys: [1, 2, 3, 5, 6, 7].iter().map(|a| (*a, *a, Keys { aura: sp_runtime::testing::UintAuthorityId(*a as u64) })).collect() }.assimilate_storage(&mut s).unwrap();
        let map = sp_io::TestExternalities::from(s).map;
        let (_, map) = mcstore::isolated(map, || {
            System::set_block_number(1);
            for (a, amount, end) in [(1, 100, 50), (2, 60, 50), (3, 250, 10), (4, 300, 50)] { Escrow::create_lock(signed(a), amount, end).unwrap() }
        });
        let s = St { map, h: 1, inv: vec![6], cand: vec![], bond: 20, desired: 2, last: Default::default(), now: vec![6], next: vec![6], pot: 0, paid: Default::default() };
        Coll { start: vec![("one invulnerable".into(), s)], who, inv, bonds, desired }
    }
    fn scenario(&mut self, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        for o in ops { match self.step(&s, o) { Ok((n, l)) => { if std::env::var("VERBOSE").is_ok() { eprintln!("{}: {:?} -> {}", name, o, l) } s = n } Err(e) => { eprintln!("scenario {}: {:?}", name, e); break } } }
        self.start.push((name.into(), s));
    }
}
impl Machine for Coll {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![Op::Block(None)];
        for a in &sorted(&s.now) { v.push(Op::Block(Some(*a))) }
        for a in &self.who { v.push(Op::Register(*a)); v.push(Op::Leave(*a)) }
        for b in &self.bonds { v.push(Op::Bond(true, *b)) }
        for d in &self.desired { v.push(Op::Desired(true, *d)) }
        for i in &self.inv { v.push(Op::Invulnerables(true, i.clone())) }
        v.extend([Op::Fund(9), Op::Bond(false, 1), Op::Desired(false, 1), Op::Invulnerables(false, vec![1])]);
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (s.h, &s.inv, &s.cand, s.bond, s.desired, &s.last, &s.now, &s.next, s.pot, &s.paid)).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let judge = |r: Result<(), String>, ok: bool, what: &str| if r.is_ok() == ok { Ok(if ok { what.to_string() } else { format!("no {}: {}", what, r.unwrap_err()) }) } else { Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, what), format!("{:?} with candidates {:?}, desired {}, bond {}: {:?}", op, s.cand, s.desired, s.bond, r))) };
            let origin = |r: bool| if r { root() } else { signed(1) };
            let free = |a: AccountId, x: &St| Escrow::balance_at(&a, None).saturating_sub(x.cand.iter().find(|c| c.0 == a).map_or(0, |c| c.1));
            let er = |e: sp_runtime::DispatchErrorWithPostInfo<frame_support::dispatch::PostDispatchInfo>| err_name(&e.error);
            let label = match op.clone() {
                Op::Register(a) => {
                    let ok = (s.cand.len() as u32) < s.desired.min(MAX_CANDIDATES) && !s.inv.contains(&a) && a != 4 && !s.cand.iter().any(|c| c.0 == a) && free(a, s) >= s.bond;
                    let l = judge(tx(|| CollatorSelection::register_as_candidate(signed(a)).map(|_| ()).map_err(er)), ok, "candidate")?;
                    if ok { n.cand.push((a, s.bond)); n.last.insert(a, s.h + PERIOD); }
                    l
                }
                Op::Leave(a) => {
                    let ok = s.cand.iter().any(|c| c.0 == a) && s.cand.len() as u32 > MIN_CANDIDATES;
                    let l = judge(tx(|| CollatorSelection::leave_intent(signed(a)).map(|_| ()).map_err(er)), ok, "candidate left")?;
                    if ok { n.cand.retain(|c| c.0 != a); n.last.remove(&a); }
                    l
                }
                Op::Bond(r, b) => { let l = judge(tx(|| CollatorSelection::set_candidacy_bond(origin(r), b).map(|_| ()).map_err(er)), r, "bond set")?; if r { n.bond = b } l }
                Op::Desired(r, d) => { let l = judge(tx(|| CollatorSelection::set_desired_candidates(origin(r), d).map(|_| ()).map_err(er)), r, "desired number set")?; if r { n.desired = d } l }
                Op::Invulnerables(r, v) => {
                    let ok = r && v.len() as u32 <= MAX_INVULNERABLES && !v.contains(&4);
                    let l = judge(tx(|| CollatorSelection::set_invulnerables(origin(r), v.clone()).map(|_| ()).map_err(er)), ok, "invulnerables set")?;
                    if ok { n.inv = v }
                    l
                }
                Op::Fund(x) => { <Balances as Currency<_>>::transfer(&99, &CollatorSelection::account_id(), x, frame_support::traits::ExistenceRequirement::KeepAlive).unwrap(); n.pot += x; "pot funded".into() }
                Op::Block(author) => {
                    n.h += 1;
                    System::set_block_number(n.h);
                    AUTHOR.with(|a| a.set(author));
                    Authorship::on_initialize(n.h);
                    CollatorSelection::on_initialize(n.h);
                    Session::on_initialize(n.h);
                    Authorship::on_finalize(n.h);
                    CollatorSelection::on_finalize(n.h);
                    AUTHOR.with(|a| a.set(None));
                    let mut label = if author.is_some() { "authored block" } else { "empty block" }.to_string();
                    if let Some(a) = author { let pay = s.pot / 2; n.pot -= pay; *n.paid.entry(a).or_default() += pay; n.last.insert(a, n.h); }
                    if n.h % PERIOD == 0 {
                        n.now = s.next.clone();
                        let all = n.cand.clone();
                        for (a, _) in all {
                            let idle = n.h.saturating_sub(n.last.get(&a).copied().unwrap_or(0)) >= PERIOD;
                            let poor = Escrow::balance_at(&a, None) < n.bond;
                            if (idle || poor) && n.cand.len() as u32 > MIN_CANDIDATES { n.cand.retain(|c| c.0 != a); n.last.remove(&a); label += if idle { ", idle candidate removed" } else { ", poor candidate removed" } }
                        }
                        n.next = n.inv.clone();
                        for (a, _) in &n.cand { if !n.next.contains(a) { n.next.push(*a) } }
                        label = format!("session: {}", label);
                    }
                    label
                }
            };
            let e = |k: &str, m: String| Err((k.to_string(), format!("after {:?}: {}", op, m)));
            let got: Vec<_> = CollatorSelection::candidates().iter().map(|c| (c.who, c.deposit)).collect();
            let (mut g, mut w) = (got.clone(), n.cand.clone());
            g.sort(); w.sort();
            if g != w { return e("candidates", format!("candidates and their bonds are {:?}, expected {:?}", got, n.cand)) }
            if sorted(&CollatorSelection::invulnerables()) != sorted(&n.inv) || CollatorSelection::candidacy_bond() != n.bond || CollatorSelection::desired_candidates() != n.desired { return e("parameters", "a parameter differs from what was last set".into()) }
            for a in ACCOUNTS {
                let want = n.cand.iter().find(|c| c.0 == a).map_or(0, |c| c.1);
                if <Escrow as ReservableCurrency<_>>::reserved_balance(&a) != want { return e("bond", format!("account {} has {} reserved, its bond is {}", a, <Escrow as ReservableCurrency<_>>::reserved_balance(&a), want)) }
                if <Escrow as Currency<_>>::free_balance(&a) != Escrow::balance_at(&a, None).saturating_sub(want) { return e("free", format!("account {} has {} free voting power", a, <Escrow as Currency<_>>::free_balance(&a))) }
                if Balances::free_balance(a) != 1000 + n.paid.get(&a).copied().unwrap_or(0) { return e("reward", format!("account {} holds {}, expected {} of rewards", a, Balances::free_balance(a), n.paid.get(&a).copied().unwrap_or(0))) }
            }
            if Balances::free_balance(CollatorSelection::account_id()) != ED + n.pot { return e("pot", format!("the pot holds {}, expected {}", Balances::free_balance(CollatorSelection::account_id()), ED + n.pot)) }
            if sorted(&Session::validators()) != sorted(&n.now) { return e("authors", format!("the authors of the session are {:?}, expected {:?}", Session::validators(), n.now)) }
            let q: Vec<_> = Session::queued_keys().iter().map(|x| x.0).collect();
            if sorted(&q) != sorted(&n.next) { return e("next-authors", format!("the authors of the next session are {:?}, expected {:?} of invulnerables {:?} and candidates {:?}", q, n.next, n.inv, n.cand)) }
            Ok(label)
        });
        let label = r?;
        n.map = map;
        Ok((n, label))
    }
}
pub fn g03(ctx: &mut Ctx) {
    let mut a = Coll::new(vec![1, 2, 3], vec![vec![6, 7]], vec![30], vec![3]);
    a.scenario("two candidates of a running session", &[Op::Register(1), Op::Register(3), Op::Fund(9), Op::Block(None), Op::Block(None), Op::Block(Some(6)), Op::Block(None), Op::Block(Some(6))]);
    a.scenario("a third candidate wanted", &[Op::Register(1), Op::Register(3), Op::Desired(true, 3), Op::Register(2), Op::Block(None), Op::Block(None), Op::Block(None), Op::Block(Some(6))]);
    let mut b = Coll::new(vec![1, 4, 5, 6], vec![vec![1], vec![], vec![6, 7, 1], vec![4]], vec![0, 90], vec![1, 4]);
    b.scenario("candidates under a higher bond", &[Op::Register(1), Op::Bond(true, 40), Op::Register(2), Op::Block(Some(6)), Op::Block(None)]);
    b.scenario("more candidates than the list can hold wanted", &[Op::Desired(true, 4), Op::Bond(true, 0), Op::Register(2), Op::Register(3), Op::Register(1), Op::Bond(true, 90)]);
    for (what, m, d) in [("sessions", a, ctx.pick(6, 8)), ("governance", b, ctx.pick(4, 6))] {
        let n = bfs(ctx, &m, d, 3_000_000);
        ctx.bound(format!("{}: all histories of {} operations from {} starting states: register, leave, bonds {:?}, desired numbers {:?}, invulnerables {:?}, blocks authored by each author of the session or none, sessions of {} blocks, at least {} candidate(s), {} states", what, d, m.start.len(), m.bonds, m.desired, m.inv, PERIOD, MIN_CANDIDATES, n));
    }
    ctx.assume("pallet-session, pallet-authorship and pallet-balances are those of the shim; voting power is the escrow pallet's own");
}
