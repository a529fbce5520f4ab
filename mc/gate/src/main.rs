//! G06: governance parameters. Every privileged call of the bridge, token and lending pallets, by every kind of origin, in all
//! orders up to a depth: only root's calls within the limits succeed, and each changes exactly its own parameter.
mod bridge;
#[path = "../../base/src/soc.rs"]
#[allow(dead_code)]
mod soc;
mod tokens;
use kit::System as Machine;
use kit::*;
use mcstore::Map;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Who { Root, User, Insider, Unsigned }
pub const ALL: [Who; 4] = [Who::Root, Who::User, Who::Insider, Who::Unsigned];
pub type Values = BTreeMap<&'static str, String>;
pub struct Setter { pub name: String, pub call: Box<dyn Fn(Who) -> Result<(), String> + Sync>, /** what root's call changes; None: refused even for root */ pub sets: Option<Vec<(&'static str, String)>> }
pub struct Gate { pub start: Map, pub setters: Vec<Setter>, pub params: Vec<(&'static str, Box<dyn Fn() -> String + Sync>)> }
#[derive(Clone)]
pub struct State { map: Map, values: Values }
impl Gate {
    pub fn read(&self) -> Values { self.params.iter().map(|(n, f)| { mcstore::begin(); let v = f(); mcstore::rollback(); (*n, v) }).collect() }
}
impl Machine for Gate {
    type State = State;
    type Op = (usize, Who);
    fn initial(&self) -> Vec<(String, State)> { let (values, map) = mcstore::isolated(self.start.clone(), || self.read()); vec![("genesis".into(), State { map, values })] }
    fn ops(&self, _: &State) -> Vec<Self::Op> { (0..self.setters.len()).flat_map(|i| ALL.map(|w| (i, w))).collect() }
    fn key(&self, s: &State) -> u128 { fp(format!("{:?}", s.values).as_bytes()) }
    fn step(&self, s: &State, op: &Self::Op) -> Result<(State, String), (String, String)> {
        let x = &self.setters[op.0];
        let ((r, got), map) = mcstore::isolated(s.map.clone(), || { let r = rt::tx(|| (x.call)(op.1)); (r, self.read()) });
        let mut want = s.values.clone();
        let allowed = op.1 == Who::Root && x.sets.is_some();
        if allowed != r.is_ok() { return Err((format!("{}:{}", if allowed { "refused" } else { "accepted" }, x.name), format!("{} by {:?} is {:?}", x.name, op.1, r))) }
        if allowed { for (n, v) in x.sets.as_ref().unwrap() { want.insert(n, v.clone()); } }
        for (n, v) in &want { if got[n] != *v { return Err((format!("value:{}", n), format!("after {} by {:?} ({:?}) {} is {}, it must be {}", x.name, op.1, r, n, got[n], v))) } }
        Ok((State { map, values: got }, if allowed { "set" } else { "refused" }.into()))
    }
}
fn g06(ctx: &mut Ctx) {
    for (name, g, d) in [("bridge and lending", bridge::gate(), ctx.pick(2, 3)), ("native token", tokens::gate(), ctx.pick(4, 6))] {
        let n = bfs(ctx, &g, d, ctx.pick(400_000, 4_000_000));
        ctx.bound(format!("{}: all sequences of up to {} of {} calls by root, a user, an account with a role, and nobody; {} parameters read after each: {} states", name, d, g.setters.len(), g.params.len(), n));
    }
    ctx.assume("the FRAME/ORML shim under the pallets behaves as Substrate does (checked with the pallets' own unit tests)");
}
fn main() { main_with(&[("G06", g06)]) }
