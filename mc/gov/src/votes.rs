//! G01: every history of proposals, votes, launches, fast tracks, cancellations and blocks; and the threshold rules on every small tally.
use crate::soc::System;
use crate::soc::*;
use democracy::{Approved, ReferendumInfo, Tally, Vote, VoteThreshold};
use frame_support::traits::{Bounded, Currency, Hooks, QueryPreimage, ReservableCurrency, StorePreimage};
use codec::Encode;
use kit::{System as Machine, *};
use mcstore::Map;
use num_bigint::BigUint;
use std::collections::BTreeMap;

pub const USERS: [AccountId; 3] = [1, 2, 3];
const BENEFICIARY: AccountId = 800;
const FUNDS: u128 = 1_000_000;
/// what the proposals pay from the treasury: the first is short enough to be stored inline, the others are noted preimages
const VALUES: [u128; 3] = [1, 1000, 100_000];
fn call(k: usize) -> RuntimeCall {
    let c = RuntimeCall::Democracy(democracy::Call::spend_from_treasury { value: VALUES[k], beneficiary: BENEFICIARY });
    if k == 0 { c } else { RuntimeCall::Utility(pallet_utility::Call::batch { calls: vec![RuntimeCall::System(frame_system::Call::remark { remark: vec![k as u8; 130] }), c] }) }
}
fn hash(k: usize) -> frame_support::traits::PreimageHash { frame_support::traits::PreimageHash::from(sp_core::blake2_256(&call(k).encode())) }
fn bounded(k: usize) -> Bounded<RuntimeCall> { if k == 0 { Preimage::bound(call(0)).unwrap() } else { Bounded::unrequested(hash(k), call(k).encode().len() as u32) } }
#[derive(Clone, Debug, PartialEq)]
struct Prop { idx: u32, k: usize, by: AccountId, backers: Vec<AccountId>, deposit: u128 }
#[derive(Clone, Debug, PartialEq)]
enum Ref { Ongoing { k: usize, end: u64, delay: u64 }, Finished { end: u64, approved: bool } }
#[derive(Clone)]
pub struct St {
    map: Map, h: u64, time: u64, next_launch: u64, count: u32, props: Vec<Prop>, refs: BTreeMap<u32, Ref>, refcount: u32,
    /// [user]: referendum -> (aye, balance), kept until removed
    votes: [BTreeMap<u32, (bool, u128)>; 3],
    /// (block, kind)
    agenda: Vec<(u64, usize)>, /** is the preimage there on the noter's account */ noted: [bool; 3], spent: u128,
}
#[derive(Clone, Debug)]
pub enum Op {
    Propose(AccountId, usize, u128), Second(AccountId, u32), Vote(usize, u32, bool, Power), Unvote(usize, u32), FastTrack(bool, u32, u64), Table(bool, u32, u64), FastTrackRef(bool, u32), CancelRef(bool, u32), Clear(bool),
    CancelProp(Option<AccountId>, u32), Spend(bool), Unnote(usize), Block(u64),
}
#[derive(Clone, Copy, Debug)]
pub enum Power { Fixed(u128), All, TooMuch }
pub struct Dem { start: Vec<(String, St)>, kinds: Vec<usize>, powers: Vec<Power>, users: usize, delays: Vec<u64>, times: Vec<u64>, deposits: Vec<u128>, gov: bool }
/// the rules, exactly: against/√turnout < for/√electorate (and its mirror image), with integer square roots
fn isqrt(n: u128) -> u128 { if n == 0 { return 0 } let (mut lo, mut hi) = (1u128, 1u128 << 64); while lo + 1 < hi { let m = lo + (hi - lo) / 2; if m.checked_mul(m).map_or(false, |x| x <= n) { lo = m } else { hi = m } } lo }
fn passes(t: VoteThreshold, ayes: u128, nays: u128, turnout: u128, electorate: u128) -> bool {
    let (v, e) = (isqrt(turnout), isqrt(electorate.max(turnout)));
    if v == 0 || e == 0 { return false }
    let b = |x: u128| BigUint::from(x);
    match t { VoteThreshold::SuperMajorityApprove => b(nays) * b(e) < b(ayes) * b(v), VoteThreshold::SuperMajorityAgainst => b(nays) * b(v) < b(ayes) * b(e), VoteThreshold::SimpleMajority => ayes > nays }
}
impl St {
    fn backing(p: &Prop) -> u128 { p.deposit * p.backers.len() as u128 }
    fn reserved(&self, u: AccountId) -> u128 { self.props.iter().map(|p| p.deposit * p.backers.iter().filter(|b| **b == u).count() as u128).sum() }
    fn free(&self, u: AccountId) -> u128 { Escrow::balance_at(&u, None).saturating_sub(self.reserved(u)) }
    fn tally(&self, r: u32) -> (u128, u128) { let f = |aye: bool| self.votes.iter().filter_map(|v| v.get(&r)).filter(|v| v.0 == aye).map(|v| v.1).sum(); (f(true), f(false)) }
    fn holds(&self, k: usize) -> u32 { (self.props.iter().filter(|p| p.k == k).count() + self.refs.values().filter(|r| matches!(r, Ref::Ongoing { k: x, .. } if *x == k)).count() + self.agenda.iter().filter(|a| a.1 == k).count()) as u32 }
    fn available(&self, k: usize) -> bool { k == 0 || self.noted[k] || self.holds(k) > 0 }
    fn start_ref(&mut self, k: usize, end: u64, delay: u64) -> u32 { let i = self.refcount; self.refcount += 1; self.refs.insert(i, Ref::Ongoing { k, end, delay }); i }
}
impl Dem {
    fn new(kinds: Vec<usize>, powers: Vec<Power>, users: usize, delays: Vec<u64>, times: Vec<u64>, deposits: Vec<u128>, gov: bool) -> Dem {
        let (r, map) = mcstore::isolated(genesis(&[(1, 5000), (2, 5000), (3, 5000), (10, 1000), (TREASURY, FUNDS)]), || {
            System::set_block_number(1);
            Timestamp::set_timestamp(1000);
            // 3 loses its power soon
            for (a, amount, end) in [(1, 1100, 50), (2, 550, 50), (3, 2000, 10)] { Escrow::create_lock(signed(a), amount, end).unwrap() }
            for k in 1..3 { Preimage::note_preimage(signed(10), call(k).encode()).unwrap() }
            democracy::NextLaunchTimestamp::<Test>::put(13);
        });
        let _: () = r;
        let s = St { map, h: 1, time: 1, next_launch: 13, count: 0, props: vec![], refs: Default::default(), refcount: 0, votes: Default::default(), agenda: vec![], noted: [false, true, true], spent: 0 };
        Dem { start: vec![("nothing proposed".into(), s)], kinds, powers, users, delays, times, deposits, gov }
    }
    fn scenario(&mut self, name: &str, ops: &[Op]) {
        let mut s = self.start[0].1.clone();
        for o in ops { match self.step(&s, o) { Ok((n, l)) => { if std::env::var("VERBOSE").is_ok() { eprintln!("{}: {:?} -> {}", name, o, l) } s = n } Err(e) => { eprintln!("scenario {}: {:?}", name, e); break } } }
        self.start.push((name.into(), s));
    }
    fn check(&self, s: &St, op: &Op) -> Result<(), (String, String)> {
        let e = |k: &str, m: String| Err((k.to_string(), format!("after {:?}: {}", op, m)));
        let mut got: Vec<(u32, bool, AccountId)> = Democracy::public_props().iter().map(|p| (p.0, s.props.iter().any(|q| q.idx == p.0 && bounded(q.k) == p.1), p.2)).collect();
        got.sort();
        let mut want: Vec<_> = s.props.iter().map(|p| (p.idx, true, p.by)).collect();
        want.sort();
        if got != want || Democracy::public_prop_count() != s.count { return e("proposals", format!("{:?} of {} are proposed, expected {:?} of {}", got, Democracy::public_prop_count(), want, s.count)) }
        for i in 0..s.count + 1 {
            let p = s.props.iter().find(|p| p.idx == i);
            let sort = |mut v: Vec<AccountId>| { v.sort(); v };
            let d = Democracy::deposit_of(i).map(|(w, d)| (sort(w.to_vec()), d));
            if d != p.map(|p| (sort(p.backers.clone()), p.deposit)) { return e("deposits", format!("the deposits of proposal {} are {:?}, expected {:?}", i, d, p)) }
            if Democracy::backing_for(i) != p.map(St::backing) { return e("backing", format!("the backing of proposal {} is {:?}", i, Democracy::backing_for(i))) }
        }
        for u in USERS {
            if <Escrow as ReservableCurrency<_>>::reserved_balance(&u) != s.reserved(u) { return e("reserved", format!("account {} has {} reserved, its deposits are {}", u, <Escrow as ReservableCurrency<_>>::reserved_balance(&u), s.reserved(u))) }
            if <Escrow as Currency<_>>::free_balance(&u) != s.free(u) { return e("free", format!("account {} has {} free voting power, expected {}", u, <Escrow as Currency<_>>::free_balance(&u), s.free(u))) }
        }
        if Democracy::referendum_count() != s.refcount { return e("referendum-count", format!("{} referenda, expected {}", Democracy::referendum_count(), s.refcount)) }
        for i in 0..s.refcount + 1 {
            let want = s.refs.get(&i);
            match (Democracy::referendum_info(i), want) {
                (None, None) => {}
                (Some(ReferendumInfo::Ongoing(g)), Some(Ref::Ongoing { k, end, delay })) => {
                    let (ayes, nays) = s.tally(i);
                    if (g.tally.ayes, g.tally.nays, g.tally.turnout) != (ayes, nays, ayes + nays) { return e("tally", format!("the tally of referendum {} is {:?}, the votes cast are {} for and {} against", i, g.tally, ayes, nays)) }
                    if g.end != *end || g.delay != *delay || g.proposal != bounded(*k) || g.threshold != VoteThreshold::SuperMajorityApprove { return e("referendum", format!("referendum {} is {:?}, expected {:?}", i, g, want)) }
                }
                (Some(ReferendumInfo::Finished { approved, end }), Some(Ref::Finished { approved: a, end: b })) if approved == *a && end == *b => {}
                (g, w) => return e("outcome", format!("referendum {} is {:?}, expected {:?} (votes {:?}, electorate {})", i, g, w, s.tally(i), <Escrow as Currency<AccountId>>::total_issuance())),
            }
        }
        for k in 1..3 {
            let n = pallet_preimage::Pallet::<Test>::requests(&hash(k));
            if n != s.holds(k) { return e("preimage-holds", format!("the preimage of proposal kind {} is requested {} times, needed {} times", k, n, s.holds(k))) }
            if <Preimage as QueryPreimage>::have(&bounded(k)) != s.available(k) { return e("preimage", format!("the preimage of kind {} is there: {}", k, !s.available(k))) }
        }
        if Balances::free_balance(BENEFICIARY) != s.spent || Balances::free_balance(TREASURY) != FUNDS - s.spent { return e("enactment", format!("the treasury paid {} (holds {}), passed proposals amount to {}", Balances::free_balance(BENEFICIARY), Balances::free_balance(TREASURY), s.spent)) }
        Ok(())
    }
}
impl Machine for Dem {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v: Vec<Op> = self.times.iter().map(|t| Op::Block(*t)).collect();
        for (n, u) in USERS[..self.users].iter().enumerate() {
            for k in &self.kinds { if n == k % self.users { for d in &self.deposits { v.push(Op::Propose(*u, *k, *d)) } } }
            for p in &s.props { v.push(Op::Second(*u, p.idx)) }
            for r in s.refs.keys() { for p in &self.powers { v.push(Op::Vote(n, *r, true, *p)); v.push(Op::Vote(n, *r, false, *p)) } v.push(Op::Unvote(n, *r)) }
        }
        v.extend([Op::Propose(1, 0, MIN_DEPOSIT - 1), Op::Second(1, s.count), Op::Vote(0, s.refcount, true, Power::Fixed(1)), Op::Unvote(1, s.refcount)]);
        if self.gov {
            for p in &s.props {
                for d in &self.delays { v.push(Op::FastTrack(true, p.idx, *d)); v.push(Op::Table(true, p.idx, *d)) }
                v.extend([Op::FastTrack(false, p.idx, 1), Op::Table(false, p.idx, 1), Op::CancelProp(None, p.idx), Op::CancelProp(Some(p.by), p.idx), Op::CancelProp(Some(p.by % 3 + 1), p.idx)]);
            }
            for r in s.refs.keys() { v.extend([Op::FastTrackRef(true, *r), Op::FastTrackRef(false, *r), Op::CancelRef(true, *r), Op::CancelRef(false, *r)]) }
            v.extend([Op::Clear(true), Op::Clear(false), Op::Spend(false), Op::Unnote(1), Op::CancelProp(None, s.count), Op::FastTrack(true, s.count, 1), Op::CancelRef(true, s.refcount)]);
        }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (s.h, s.time, s.next_launch, s.count, &s.props, &s.refs, s.refcount, &s.votes, &s.agenda, s.noted, s.spent)).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let er = |e: sp_runtime::DispatchError| err_name(&e);
            let judge = |r: Result<(), String>, ok: bool, what: &str| if r.is_ok() == ok { Ok(if ok { what.to_string() } else { format!("no {}: {}", what, r.unwrap_err()) }) } else { Err((format!("{}:{}", if ok { "refused" } else { "accepted" }, what), format!("{:?} with proposals {:?} and referenda {:?}: {:?}", op, s.props, s.refs, r))) };
            let origin = |r: bool| if r { root() } else { signed(1) };
            let ongoing = |r: u32| matches!(s.refs.get(&r), Some(Ref::Ongoing { .. }));
            let label = match *op {
                Op::Propose(u, k, d) => {
                    let ok = d >= MIN_DEPOSIT && (s.props.len() as u32) < MAX_PROPOSALS && s.available(k) && s.free(u) >= d;
                    let l = judge(tx(|| Democracy::propose(signed(u), bounded(k), d).map_err(er)), ok, "proposal")?;
                    if ok { n.props.push(Prop { idx: s.count, k, by: u, backers: vec![u], deposit: d }); n.count += 1; }
                    l
                }
                Op::Second(u, i) => {
                    let p = s.props.iter().position(|p| p.idx == i);
                    let ok = p.map_or(false, |p| (s.props[p].backers.len() as u32) < MAX_DEPOSITS && s.free(u) >= s.props[p].deposit);
                    let l = judge(tx(|| Democracy::second(signed(u), i).map_err(er)), ok, "second")?;
                    if ok { n.props[p.unwrap()].backers.push(u) }
                    l
                }
                Op::Vote(u, r, aye, p) => {
                    let balance = match p { Power::Fixed(x) => x, Power::All => s.free(USERS[u]), Power::TooMuch => s.free(USERS[u]) + 1 };
                    let ok = ongoing(r) && balance <= s.free(USERS[u]) && (s.votes[u].contains_key(&r) || (s.votes[u].len() as u32) < MAX_VOTES);
                    let l = judge(tx(|| Democracy::vote(signed(USERS[u]), r, Vote { aye, balance }).map_err(er)), ok, "vote")?;
                    if ok { n.votes[u].insert(r, (aye, balance)); }
                    l
                }
                Op::Unvote(u, r) => {
                    let ok = s.votes[u].contains_key(&r);
                    let l = judge(tx(|| Democracy::remove_vote(signed(USERS[u]), r).map_err(er)), ok, "vote removed")?;
                    if ok { n.votes[u].remove(&r); }
                    l
                }
                Op::FastTrack(ro, i, delay) | Op::Table(ro, i, delay) => {
                    let fast = matches!(op, Op::FastTrack(..));
                    let p = s.props.iter().position(|p| p.idx == i);
                    let ok = ro && p.is_some();
                    let l = judge(tx(|| if fast { Democracy::fast_track(origin(ro), i, delay) } else { Democracy::table_proposal(origin(ro), i, delay) }.map_err(er)), ok, if fast { "fast track" } else { "tabled" })?;
                    if ok { let p = n.props.remove(p.unwrap()); n.start_ref(p.k, s.h + if fast { FAST } else { VOTING }, delay); }
                    l
                }
                Op::FastTrackRef(ro, r) => {
                    let ok = ro && matches!(s.refs.get(&r), Some(Ref::Ongoing { end, .. }) if *end > s.h + FAST);
                    let l = judge(tx(|| Democracy::fast_track_referendum(origin(ro), r).map_err(er)), ok, "referendum fast tracked")?;
                    if ok { if let Some(Ref::Ongoing { end, .. }) = n.refs.get_mut(&r) { *end = s.h + FAST } }
                    l
                }
                Op::CancelRef(ro, r) => {
                    // cancelling what is not ongoing changes no outcome
                    let res = tx(|| Democracy::cancel_referendum(origin(ro), r).map_err(er));
                    let ok = if ro && !ongoing(r) { res.is_ok() } else { ro };
                    let l = judge(res, ok, "referendum cancelled")?;
                    if ro && ongoing(r) { n.refs.remove(&r); }
                    else if Democracy::referendum_info(r).is_none() { n.refs.remove(&r); }
                    l
                }
                Op::Clear(ro) => { let l = judge(tx(|| Democracy::clear_public_proposals(origin(ro)).map_err(er)), ro, "proposals cleared")?; if ro { n.props.clear() } l }
                Op::CancelProp(by, i) => {
                    let p = s.props.iter().position(|p| p.idx == i);
                    let ok = p.map_or(false, |p| by.map_or(true, |b| b == s.props[p].by));
                    let l = judge(tx(|| Democracy::cancel_proposal(match by { Some(b) => signed(b), None => root() }, i).map_err(er)), ok, "proposal cancelled")?;
                    if ok { n.props.remove(p.unwrap()); }
                    l
                }
                Op::Spend(ro) => judge(tx(|| Democracy::spend_from_treasury(origin(ro), 5, BENEFICIARY).map_err(er)), ro, "treasury spent")?,
                Op::Unnote(k) => { let r = tx(|| Preimage::unnote_preimage(signed(10), hash(k)).map_err(er)); if r.is_ok() { n.noted[k] = false } format!("preimage withdrawn: {}", r.is_ok()) }
                Op::Block(dt) => {
                    n.h += 1;
                    System::set_block_number(n.h);
                    Scheduler::on_initialize(n.h);
                    Democracy::on_initialize(n.h);
                    // the time of this block is known after its initialisation
                    n.time += dt;
                    Timestamp::set_timestamp(n.time * 1000);
                    let mut label = String::from("block");
                    let due: Vec<_> = n.agenda.iter().filter(|a| a.0 == n.h).map(|a| a.1).collect();
                    n.agenda.retain(|a| a.0 != n.h);
                    for k in due { n.spent += VALUES[k]; label += ", enacted" }
                    let electorate = <Escrow as Currency<AccountId>>::total_issuance();
                    if s.time >= s.next_launch {
                        n.next_launch += ((s.time - s.next_launch) / LAUNCH + 1) * LAUNCH;
                        // the two with the highest backing, in this order; ties are broken either way
                        let left: Vec<u32> = Democracy::public_props().iter().map(|p| p.0).collect();
                        let mut gone: Vec<Prop> = n.props.iter().filter(|p| !left.contains(&p.idx)).cloned().collect();
                        if gone.len() != n.props.len().min(2) { return Err(("launch".into(), format!("{} of the proposals {:?} were launched", gone.len(), s.props))) }
                        gone.sort_by_key(|p| std::cmp::Reverse(St::backing(p)));
                        n.props.retain(|p| left.contains(&p.idx));
                        if let (Some(a), Some(b)) = (gone.iter().map(St::backing).min(), n.props.iter().map(St::backing).max()) { if a < b { return Err(("launch-order".into(), format!("{:?} were launched before {:?}", gone, n.props))) } }
                        if gone.len() == 2 && St::backing(&gone[0]) == St::backing(&gone[1]) { if let Some(ReferendumInfo::Ongoing(r)) = Democracy::referendum_info(s.refcount) { if r.proposal != bounded(gone[0].k) { gone.swap(0, 1) } } }
                        label += &format!(", {} launched", gone.len());
                        for p in gone { n.start_ref(p.k, n.h + VOTING, ENACT); }
                    }
                    let ending: Vec<u32> = n.refs.iter().filter(|(_, r)| matches!(r, Ref::Ongoing { end, .. } if *end == n.h)).map(|(i, _)| *i).collect();
                    for i in ending {
                        let (ayes, nays) = n.tally(i);
                        let approved = passes(VoteThreshold::SuperMajorityApprove, ayes, nays, ayes + nays, electorate);
                        if let Some(Ref::Ongoing { k, delay, .. }) = n.refs.get(&i).cloned() { if approved { n.agenda.push((n.h + delay.max(1), k)) } }
                        n.refs.insert(i, Ref::Finished { end: n.h, approved });
                        label += if approved { ", passed" } else if ayes > nays { ", short of the super majority" } else if ayes + nays > 0 { ", rejected" } else { ", nobody voted" };
                    }
                    label
                }
            };
            self.check(&n, op)?;
            Ok(label)
        });
        let label = r?;
        n.map = map;
        Ok((n, label))
    }
}
/// the threshold rules on every tally up to a bound and on extreme ones
fn thresholds(ctx: &mut Ctx) {
    use VoteThreshold::*;
    let max = ctx.pick(40u128, 110);
    let rules = [SuperMajorityApprove, SuperMajorityAgainst, SimpleMajority];
    let small: Vec<u128> = (0..=max).collect();
    par(ctx, &small, |c, ayes| {
        for nays in 0..=max { for electorate in 0..=2 * max + 3 { for r in rules {
            let turnout = ayes + nays;
            let (got, want) = (r.approved(Tally { ayes: *ayes, nays, turnout }, electorate), passes(r, *ayes, nays, turnout, electorate));
            c.case(1);
            c.ensure(&format!("threshold:{:?}", r), got == want, || format!("{:?} with {} for, {} against of {}: {}", r, ayes, nays, electorate, got));
            // the rules never pass what has no vote for it, and more votes for never hurt
            c.ensure("no-ayes", !(got && *ayes == 0), || format!("{:?} passes without a vote for it", r));
        } } }
    });
    let mut big = vec![0u128, 1, 2, 3];
    for b in [10u32, 31, 32, 63, 64, 65, 100, 125, 126] { let x = 1u128 << b; big.extend([x - 1, x, x + 1, x / 3 * 2]) }
    let items = big.clone();
    par(ctx, &items, |c, ayes| {
        for nays in &big { for electorate in big.iter().chain([&u128::MAX]) { for r in rules {
            let turnout = ayes + nays;
            let (got, want) = (r.approved(Tally { ayes: *ayes, nays: *nays, turnout }, *electorate), passes(r, *ayes, *nays, turnout, *electorate));
            c.case(1);
            c.ensure(&format!("threshold:{:?}", r), got == want, || format!("{:?} with {} for, {} against of {}: {}", r, ayes, nays, electorate, got));
        } } }
    });
    ctx.bound(format!("the three threshold rules on all tallies of up to {} votes for and against with every electorate up to {}, and on {} extreme values each", max, 2 * max + 3, big.len()));
}
pub fn g01(ctx: &mut Ctx) {
    use Power::*;
    let p = |u, k, d| Op::Propose(u, k, d);
    let b = || Op::Block(6);
    // votes: few governance operations, many votes
    let mut votes = Dem::new(vec![1], vec![Fixed(60), All, TooMuch], 3, vec![], vec![6], vec![5], false);
    votes.scenario("a referendum about to end", &[p(1, 1, 5), Op::FastTrack(true, 0, 0), b()]);
    votes.scenario("two referenda voted on", &[p(1, 0, 5), p(2, 1, 5), Op::Table(true, 0, 0), Op::FastTrack(true, 1, 3), Op::Vote(0, 0, true, All), Op::Vote(1, 1, true, Fixed(60)), Op::Vote(2, 1, false, Fixed(100)), b()]);
    votes.scenario("three referenda for two votes each", &[p(1, 0, 5), p(1, 0, 5), p(2, 2, 5), Op::Table(true, 0, 0), Op::Table(true, 1, 0), Op::Table(true, 2, 0), Op::Vote(0, 0, true, All), Op::Vote(0, 1, false, All), b(), b()]);
    // governance
    let mut gov = Dem::new(vec![0, 1], vec![All], 2, vec![0, 2], vec![6], vec![7], true);
    gov.scenario("proposals and a referendum", &[p(1, 1, 7), p(2, 1, 9), Op::Second(1, 1), Op::Second(3, 1), Op::Table(true, 0, 2), p(3, 0, 20), Op::Vote(0, 0, true, All)]);
    gov.scenario("passed but not enacted", &[p(1, 1, 7), Op::FastTrack(true, 0, 3), Op::Vote(0, 0, true, All), b(), b()]);
    gov.scenario("the queue is full", &[p(1, 1, 7), p(2, 0, 9), p(3, 1, 20), Op::Second(1, 0), Op::Second(2, 0)]);
    // launching
    let mut launch = Dem::new(vec![0, 1, 2], vec![All], 2, vec![], vec![6, 35, 100], vec![4, 8], false);
    launch.scenario("three proposals, two of them backed alike", &[p(1, 0, 8), p(2, 1, 4), p(1, 2, 4), Op::Second(3, 1), Op::Block(6), Op::Block(6)]);
    launch.scenario("referenda running from a launch", &[p(1, 0, 8), p(2, 1, 4), Op::Block(13), Op::Block(6), Op::Vote(0, 0, true, All), Op::Vote(1, 1, false, All), p(1, 2, 4)]);
    for (what, m, d) in [("votes", votes, ctx.pick(4, 5)), ("governance", gov, ctx.pick(3, 4)), ("launches", launch, ctx.pick(4, 5))] {
        let n = bfs(ctx, &m, d, 3_000_000);
        ctx.bound(format!("{}: all histories of {} operations from {} starting states, {} users (one losing its voting power), vote balances {:?}, deposits {:?}, delays {:?}, block times {:?}, up to {} proposals of {} deposits, {} votes per account, {} states", what, d, m.start.len(), m.users, m.powers, m.deposits, m.delays, m.times, MAX_PROPOSALS, MAX_DEPOSITS, MAX_VOTES, n));
    }
    thresholds(ctx);
    ctx.assume("pallet-scheduler and pallet-preimage are those of the shim (named tasks run once at their block; preimages are reference counted); voting power is the escrow pallet's own");
}
