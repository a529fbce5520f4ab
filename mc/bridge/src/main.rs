mod machine;
mod ops;
mod queries;
mod real;
mod spec;
mod v10;
use kit::*;
use machine::*;
use rt::{Genesis, COL, COL2, NATIVE};
use spec::*;

fn genesis(col2: bool) -> Genesis {
    let mut b = vec![];
    for a in [10u128, 11] { b.push((a, COL, 4000)); b.push((a, NATIVE, 1000)); b.push((a, COL2, 4000)); }
    b.push((20, COL, 900));
    b.push((20, COL2, 900));
    b.push((20, NATIVE, 50));
    b.push((30, COL, 300));
    b.push((30, NATIVE, 500));
    Genesis { balances: b, col2, ..Default::default() }
}
fn bridge(g: &Genesis, vaults: Vec<(usize, usize)>, plan: Plan) -> (Bridge, State) {
    let cfg = Cfg::of(g, vaults);
    let s = start(g, &cfg);
    (Bridge { queries: None, commission: false, cfg, scenarios: vec![], plan }, s)
}
fn explore(ctx: &mut Ctx, m: &Bridge, depth: usize, cap: usize, what: &str) {
    for (name, s) in &m.scenarios { if let Err((key, msg)) = s.obs.invariants(&m.cfg) { ctx.fail(format!("initial:{}:{}", name, key), msg, vec![name.clone()]) } }
    let n = bfs(ctx, m, depth, cap);
    ctx.bound(format!("{}: every history of up to {} operations from {} starting states ({}), {} distinct states", what, depth, m.scenarios.len(), m.scenarios.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", "), n));
    ctx.assume("the FRAME/ORML shim under the pallets behaves as Substrate does (checked with the pallets' own unit tests)");
    ctx.assume("amounts, prices and waiting times are the representatives and state-derived edges produced by mc/bridge/src/ops.rs");
}
const A: usize = 0;
const B: usize = 1;
/// two vaults with the same collateral, the user holding 400 wrapped tokens backed by A (and 100 by B)
fn base(m: &mut Bridge, s: &State, keep: bool) -> State {
    let k = m.scenarios.len();
    let s = m.scenario("two vaults", s, &[Op::Register(A, 1000), Op::Register(B, 1000)]);
    let s = m.scenario("tokens issued", &s, &[Op::Issue(A, U, 400, NAT), Op::ExecIssue(0, U, 400, true), Op::Issue(B, U, 100, NAT), Op::ExecIssue(1, U, 100, true)]);
    if !keep { m.scenarios.truncate(k) }
    s
}

fn plan(issue: u8, redeem: u8, replace: u8, liq: u8, coll: u8, nom: u8, admin: u8, caps: [usize; 3]) -> Plan { Plan { issue, redeem, replace, liq, coll, nom, admin, caps } }
fn two() -> Vec<(usize, usize)> { vec![(0, 0), (1, 0)] }

fn v01(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(1, 1, 1, 1, 0, 0, 0, [3, 2, 1]));
    let s = base(&mut m, &s, true);
    m.scenario("pending issue, redeem and replace", &s, &[Op::Issue(A, U, 80, NAT), Op::Redeem(A, U, 100), Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 300)]);
    let (d, c) = (ctx.pick(7, 10), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "issue, redeem, replace, liquidation");
    // two collateral currencies backing the same wrapped token
    let (mut m, s) = bridge(&genesis(true), vec![(0, 0), (1, 1)], plan(1, 1, 1, 1, 0, 0, 0, [3, 2, 1]));
    base(&mut m, &s, true);
    let (d, c) = (ctx.pick(5, 8), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "two collateral currencies");
}
fn v02(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(1, 1, 1, 1, 1, 1, 0, [3, 2, 1]));
    let s = base(&mut m, &s, true);
    let n = m.scenario("nominated", &s, &[Op::OptIn(A), Op::Limit(A, 600), Op::Nominate(A, N, 300)]);
    m.scenario("nominated, pending redeem", &n, &[Op::Redeem(A, U, 100)]);
    m.scenario("liquidated, pending redeem", &n, &[Op::Redeem(A, U, 100), Op::Price(0, 4 * D), Op::Report(A)]);
    let (d, c) = (ctx.pick(5, 7), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "all collateral movements");
}
fn v03(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(2, 1, 0, 1, 2, 1, 2, [3, 1, 0]));
    m.scenario("no vault", &s, &[]);
    let s = base(&mut m, &s, true);
    m.scenario("nominated, custom threshold", &s, &[Op::OptIn(A), Op::Limit(A, 600), Op::Nominate(A, N, 300), Op::Threshold(A, Some(D * 5 / 2))]);
    m.scenario("at the ceiling", &s, &[Op::Ceiling(0, 2100)]);
    let (d, c) = (ctx.pick(3, 5), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "issuing and withdrawing at the thresholds");
}
fn v04(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(1, 1, 1, 2, 1, 0, 0, [3, 2, 1]));
    let s = base(&mut m, &s, true);
    let n = m.scenario("nominated, pending requests", &s, &[Op::OptIn(A), Op::Limit(A, 600), Op::Nominate(A, N, 300), Op::Issue(A, U, 80, NAT), Op::Redeem(A, U, 100)]);
    m.scenario("liquidated with pending requests", &n, &[Op::Price(0, 4 * D), Op::Report(A)]);
    m.scenario("ceiling below the total", &n, &[Op::Ceiling(0, 1500)]);
    m.scenario("offer to replace", &s, &[Op::ReqReplace(A, 150)]);
    m.scenario("replace pending", &s, &[Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 300)]);
    let (d, c) = (ctx.pick(5, 6), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "liquidation");
}
fn v05(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(2, 0, 0, 1, 0, 0, 1, [2, 0, 0]));
    let z = m.scenario("two vaults", &s, &[Op::Register(A, 1000), Op::Register(B, 1000)]);
    m.scenario("pending", &z, &[Op::Issue(A, U, 100, NAT)]);
    m.scenario("pending, older period", &z, &[Op::Issue(A, U, 100, NAT), Op::Period(0, 20), Op::Time(5, 1)]);
    m.scenario("expired", &z, &[Op::Issue(A, U, 100, NAT), Op::Time(11, 3)]);
    m.scenario("cancelled", &z, &[Op::Issue(A, U, 100, NAT), Op::Time(11, 3), Op::CancelIssue(0, N)]);
    m.scenario("liquidated", &z, &[Op::Issue(A, U, 400, NAT), Op::ExecIssue(0, U, 400, true), Op::Issue(A, U, 50, NAT), Op::Price(0, 4 * D), Op::Report(A)]);
    m.scenario("fees shared", &z, &[Op::Issue(A, U, 100, NAT), Op::Accept(A, false), Op::Accept(B, false)]);
    let (d, c) = (ctx.pick(4, 6), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "issue requests");
}
fn v06(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(0, 2, 0, 1, 0, 0, 0, [0, 2, 0]));
    let s = base(&mut m, &s, true);
    m.scenario("pending", &s, &[Op::Redeem(A, U, 100)]);
    m.scenario("expired", &s, &[Op::Redeem(A, U, 100), Op::Time(11, 3)]);
    m.scenario("expired, insecure", &s, &[Op::Redeem(A, U, 200), Op::Price(0, 23 * D / 10), Op::Time(11, 3)]);
    m.scenario("premium", &s, &[Op::Price(0, 23 * D / 10), Op::Redeem(A, U, 200)]);
    m.scenario("nominated premium", &s, &[Op::OptIn(A), Op::Limit(A, 600), Op::Nominate(A, N, 100), Op::Price(0, 26 * D / 10), Op::Redeem(A, U, 200), Op::Time(11, 3)]);
    m.scenario("liquidated", &s, &[Op::Redeem(A, U, 100), Op::Time(11, 3), Op::Price(0, 4 * D), Op::Report(A)]);
    m.scenario("offer", &s, &[Op::ReqReplace(A, 350)]);
    m.scenario("own tokens", &s, &[Op::Redeem(A, U, 200), Op::Time(11, 3), Op::CancelRedeem(0, U, true), Op::Time(11, 3), Op::Redeem(A, U, 100)]);
    m.scenario("reimbursed below the threshold", &s, &[Op::Redeem(A, U, 200), Op::Price(0, 23 * D / 10), Op::Time(11, 3), Op::CancelRedeem(0, U, true)]);
    let (d, c) = (ctx.pick(5, 6), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "redeem requests");
}
fn v07(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(0, 1, 2, 1, 0, 0, 0, [0, 1, 2]));
    let s = base(&mut m, &s, true);
    m.scenario("offer", &s, &[Op::ReqReplace(A, 150)]);
    let p = m.scenario("accepted", &s, &[Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 300)]);
    m.scenario("partly accepted", &s, &[Op::ReqReplace(A, 200), Op::AcceptReplace(B, A, 110, 220)]);
    m.scenario("expired", &p, &[Op::Time(11, 3)]);
    m.scenario("expired, collateral lent to the vault", &s, &[Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 1000), Op::Time(11, 3), Op::Withdraw(B, Some(1300), None)]);
    m.scenario("expired, new vault would be insecure", &s, &[Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 1900), Op::Issue(B, U, 300, NAT), Op::Price(0, 2 * D), Op::Time(11, 3)]);
    m.scenario("expired, release would leave less than the minimum", &s, &[Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 1000), Op::Time(11, 3), Op::Withdraw(B, Some(950), None)]);
    m.scenario("expired, mostly nominated", &s, &[Op::OptIn(B), Op::Limit(B, 1000), Op::Nominate(B, N, 600), Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 1000), Op::Time(11, 3), Op::Withdraw(B, Some(1200), None)]);
    m.scenario("cancelled", &p, &[Op::Time(11, 3), Op::CancelReplace(0)]);
    m.scenario("liquidated", &p, &[Op::Price(0, 4 * D), Op::Report(A), Op::Time(11, 3)]);
    let (d, c) = (ctx.pick(4, 5), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "replace requests");
}
fn v11(ctx: &mut Ctx) {
    let (mut m, s) = bridge(&genesis(false), two(), plan(0, 1, 0, 1, 1, 2, 0, [0, 1, 0]));
    let s = base(&mut m, &s, true);
    let n = m.scenario("nominated", &s, &[Op::OptIn(A), Op::Limit(A, 600), Op::Nominate(A, N, 300)]);
    m.scenario("opted out", &n, &[Op::OptOut(A)]);
    m.scenario("opted out twice", &n, &[Op::OptOut(A), Op::OptIn(A), Op::Nominate(A, N, 77), Op::OptOut(A)]);
    m.scenario("slashed", &n, &[Op::Redeem(A, U, 100), Op::Time(11, 3), Op::CancelRedeem(0, U, true)]);
    m.scenario("liquidated", &n, &[Op::Price(0, 5 * D), Op::Report(A)]);
    let (d, c) = (ctx.pick(5, 6), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "nomination");
}
fn v12(ctx: &mut Ctx) {
    let g = genesis(true);
    let (mut m, s) = bridge(&g, vec![(0, 0), (1, 0), (0, 1)], plan(1, 1, 1, 1, 1, 1, 0, [3, 2, 1]));
    m.queries = Some(g);
    m.scenario("no vault", &s, &[]);
    let s = base(&mut m, &s, true);
    let t = m.scenario("three vaults", &s, &[Op::Register(2, 800), Op::Issue(2, U, 90, NAT)]);
    m.scenario("pending requests of all kinds", &s, &[Op::Issue(A, U, 80, NAT), Op::Redeem(A, U, 100), Op::ReqReplace(A, 150), Op::AcceptReplace(B, A, 150, 300)]);
    m.scenario("nominated, custom threshold", &s, &[Op::OptIn(A), Op::Limit(A, 600), Op::Nominate(A, N, 300), Op::Threshold(A, Some(D * 5 / 2))]);
    m.scenario("not accepting issues", &t, &[Op::Accept(A, false)]);
    m.scenario("both below the premium threshold", &t, &[Op::Issue(B, U, 300, NAT), Op::ExecIssue(3, U, 300, true), Op::Price(0, 17 * D / 10)]);
    m.scenario("banned", &s, &[Op::Redeem(A, U, 100), Op::Time(11, 3), Op::CancelRedeem(0, U, false)]);
    m.scenario("liquidated", &s, &[Op::Redeem(A, U, 100), Op::Price(0, 4 * D), Op::Report(A)]);
    let (d, c) = (ctx.pick(3, 5), ctx.pick(1_000_000, 6_000_000));
    explore(ctx, &m, d, c, "queries");
}
fn main() { main_with(&[("V01", v01), ("V02", v02), ("V03", v03), ("V04", v04), ("V05", v05), ("V06", v06), ("V07", v07), ("V10", v10::check), ("V11", v11), ("V12", v12)]) }
