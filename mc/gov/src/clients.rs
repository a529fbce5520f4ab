//! G05: every history of setting current and pending releases and runtime upgrades.
use crate::soc::System;
use crate::soc::*;
use clients_info::ClientRelease;
use frame_support::traits::Hooks;
use kit::{System as Machine, *};
use mcstore::Map;
use sp_core::H256;
use std::collections::BTreeMap;

// one is a prefix of another, one is empty, one has the maximal length
const NAMES: [&[u8]; 4] = [b"vault", b"vault2", b"", b"12345678"];
fn release(i: u8) -> ClientRelease<frame_support::BoundedVec<u8, frame_support::traits::ConstU32<8>>, H256> { ClientRelease { uri: vec![b'u'; i as usize].try_into().unwrap(), checksum: H256::repeat_byte(i / 2) } }
#[derive(Clone)]
pub struct St { map: Map, current: BTreeMap<usize, u8>, pending: BTreeMap<usize, u8> }
#[derive(Clone, Debug)]
pub enum Op { Current(Option<u128>, usize, u8), Pending(Option<u128>, usize, u8), Upgrade, Block }
pub struct Clients { names: usize, releases: u8 }
impl Machine for Clients {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { vec![("nothing released".into(), St { map: genesis(&[(1, 100)]), current: Default::default(), pending: Default::default() })] }
    fn ops(&self, _: &St) -> Vec<Op> {
        let mut v = vec![Op::Upgrade, Op::Block, Op::Current(Some(1), 0, 1), Op::Pending(Some(1), 0, 1)];
        for n in 0..self.names { for r in 0..self.releases { v.push(Op::Current(None, n, r)); v.push(Op::Pending(None, n, r)) } }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (&s.current, &s.pending)).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> Result<String, (String, String)> {
            let name = |i: usize| frame_support::BoundedVec::try_from(NAMES[i].to_vec()).unwrap();
            let origin = |o: Option<u128>| match o { Some(a) => signed(a), None => root() };
            let judge = |r: Result<(), sp_runtime::DispatchError>, o: Option<u128>, what: &str| match (r, o) { (Ok(()), None) => Ok(what.to_string()), (Err(_), Some(_)) => Ok(format!("unauthorised: {}", what)), (r, _) => Err((format!("authority:{}", what), format!("{:?}: {:?}", op, r))) };
            let label = match *op {
                Op::Current(o, i, v) => { let r = tx(|| ClientsInfo::set_current_client_release(origin(o), name(i), release(v))); if o.is_none() { n.current.insert(i, v); } judge(r, o, "current release")? }
                Op::Pending(o, i, v) => { let r = tx(|| ClientsInfo::set_pending_client_release(origin(o), name(i), release(v))); if o.is_none() { n.pending.insert(i, v); } judge(r, o, "pending release")? }
                Op::Upgrade => { ClientsInfo::on_runtime_upgrade(); let l = format!("upgrade promoting {}", n.pending.len()); n.current.append(&mut n.pending); l }
                Op::Block => { System::set_block_number(System::block_number() + 1); ClientsInfo::on_initialize(System::block_number()); ClientsInfo::on_finalize(System::block_number()); "block".into() }
            };
            for i in 0..NAMES.len() {
                let (c, p) = (ClientsInfo::current_client_release(name(i)), ClientsInfo::pending_client_release(name(i)));
                if c != n.current.get(&i).map(|v| release(*v)) { return Err(("current".into(), format!("after {:?} the current release of {:?} is {:?}, expected number {:?}", op, NAMES[i], c, n.current.get(&i)))) }
                if p != n.pending.get(&i).map(|v| release(*v)) { return Err(("pending".into(), format!("after {:?} the pending release of {:?} is {:?}, expected number {:?}", op, NAMES[i], p, n.pending.get(&i)))) }
            }
            Ok(label)
        });
        let label = r?;
        n.map = map;
        Ok((n, label))
    }
}
pub fn g05(ctx: &mut Ctx) {
    for (m, d) in [(Clients { names: 4, releases: 2 }, ctx.pick(7, 16)), (Clients { names: 2, releases: 4 }, ctx.pick(7, 16))] {
        let n = bfs(ctx, &m, d, 3_000_000);
        ctx.bound(format!("all histories of {} operations on {} client names and {} releases (URI of 0 to {} bytes), {} states", d, m.names, m.releases, m.releases - 1, n));
    }
}
