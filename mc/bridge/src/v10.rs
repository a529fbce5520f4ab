//! V10: fees and rewards.  The bridge machine plus exact entitlements: every fee is split at the moment it is charged by
//! capacity, reward stake, commission and collateral, and in every reachable state everybody cashes out on a scratch copy.
use crate::{machine::*, real, spec::*, *};
use kit::{q::*, System as Machine};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum ROp { B(Op), Fee(usize, u128), Native(u128), Commission(usize, u128), Claim(usize, usize, Option<u64>) }
#[derive(Clone)]
pub struct RState {
    s: State,
    /// what the staker of a pool may still claim, at least and at most (currency 0: wrapped, 1: native)
    ent: BTreeMap<(usize, u64, usize, usize), (Q, Q)>,
    /// commission credited but possibly not yet paid
    com: BTreeMap<(usize, usize), (Q, Q)>,
    /// accrued to the vault, commission perhaps not yet taken; with the lowest and highest rate since
    pend: BTreeMap<(usize, usize), Q>,
    rates: Vec<(u128, u128)>,
    rate: Vec<u128>,
    /// units that rounding may have left in the pool so far
    loss: u128,
    dead: bool,
    claims: Vec<u128>,
}
const RC: [usize; 2] = [WRA, NAT];
pub struct Rewards { pub b: Bridge, pub start: Vec<(String, RState)>, pub menu: fn(&Rewards, &RState) -> Vec<ROp> }

fn get<K: Ord>(m: &BTreeMap<K, (Q, Q)>, k: &K) -> (Q, Q) { m.get(k).cloned().unwrap_or((zero(), zero())) }
impl RState {
    pub fn of(s: &State) -> RState { let n = s.obs.v.len(); RState { s: s.clone(), ent: Default::default(), com: Default::default(), pend: Default::default(), rates: vec![(0, 0); n], rate: vec![0; n], loss: 0, dead: false, claims: vec![] } }
    /// the commission on what vault v has accrued is taken and the rest belongs to the stakers of `o`
    fn freeze(&mut self, v: usize, o: &Obs) {
        let (lo, hi) = self.rates[v];
        for c in 0..2 {
            let g = self.pend.remove(&(v, c)).unwrap_or(zero());
            if g == zero() { continue }
            let e = self.com.entry((v, c)).or_insert((zero(), zero()));
            *e = (&e.0 + &g * fixedu(lo), &e.1 + &g * fixedu(hi));
            for a in 0..ST {
                if o.v[v].stake[a] == 0 { continue }
                let part = &g * qu(o.v[v].stake[a]) / qu(o.v[v].total);
                let e = self.ent.entry((v, o.v[v].nonce, a, c)).or_insert((zero(), zero()));
                *e = (&e.0 + &part * (one() - fixedu(hi)), &e.1 + &part * (one() - fixedu(lo)));
            }
        }
        self.rates[v] = (self.rate[v], self.rate[v]);
    }
    /// a fee of x is charged in the state o
    fn charge(&mut self, k: &Cfg, o: &Obs, c: usize, x: u128) {
        for v in 0..o.v.len() {
            let col = k.vaults[v].1;
            let all: u128 = (0..o.v.len()).filter(|i| k.vaults[*i].1 == col).map(|i| o.v[i].rstake).sum();
            if o.v[v].rstake == 0 || o.cap[col] == 0 { continue }
            *self.pend.entry((v, c)).or_insert(zero()) += qu(x) * qu(o.cap[col]) / qu(o.cap_total) * qu(o.v[v].rstake) / qu(all);
        }
    }
    /// what account a may get out of vault v, at least and at most
    fn due(&self, k: &Cfg, v: usize, a: usize, c: usize) -> (Q, Q) {
        let mut t = self.clone();
        t.freeze(v, &self.s.obs);
        let mut r = (zero(), zero());
        for ((w, _, b, d), x) in &t.ent { if (*w, *b, *d) == (v, a, c) { r = (r.0 + &x.0, r.1 + &x.1) } }
        if k.vaults[v].0 == a { let x = get(&t.com, &(v, c)); r = (r.0 + x.0, r.1 + x.1) }
        r
    }
}
fn wallet(a: usize, c: usize) -> u128 { rt::free(real::CURS[RC[c]], real::acc(a)) }
fn claim(k: &Cfg, v: usize, a: usize, n: Option<u64>) -> Result<(), String> { rt::tx(|| rt::Fee::withdraw_rewards(rt::signed(real::acc(a)), real::vault_id(k, v), n).map(|_| ()).map_err(|e| rt::err_name(&e))) }

impl Rewards {
    /// everybody cashes out on a scratch copy
    fn cash_out(&self, r: &mut RState) -> Result<(), (String, String)> {
        let k = &self.b.cfg;
        let obs = r.s.obs.clone();
        let (res, _) = mcstore::isolated(r.s.map.clone(), || {
            let mut got = vec![];
            for v in 0..obs.v.len() {
                if !obs.v[v].exists { continue }
                let before: Vec<[u128; 2]> = (0..ST).map(|a| [wallet(a, 0), wallet(a, 1)]).collect();
                for n in 0..obs.v[v].nonce { for a in 0..ST { if r.ent.keys().any(|x| (x.0, x.1, x.2) == (v, n, a)) { claim(k, v, a, Some(n)).map_err(|e| format!("rewards of account {} in refunded pool {} of vault {} cannot be withdrawn: {}", a, n, v, e))? } } }
                for a in 0..ST {
                    // compute_vault_rewards promises what a withdrawal pays
                    let promise = if r.com.is_empty() && obs.v[v].nonce == 0 { rt::Fee::compute_vault_rewards(&real::vault_id(k, v), &real::acc(a), real::CURS[WRA]).map(|x| x.amount()).ok() } else { None };
                    let b = wallet(a, 0);
                    claim(k, v, a, None).map_err(|e| format!("rewards of account {} in vault {} cannot be withdrawn: {}", a, v, e))?;
                    if let Some(p) = promise { if p != wallet(a, 0) - b { return Err(format!("account {} was promised {} from vault {} but got {}", a, p, v, wallet(a, 0) - b)) } }
                }
                got.push((v, (0..ST).map(|a| [wallet(a, 0) - before[a][0], wallet(a, 1) - before[a][1]]).collect::<Vec<_>>()));
            }
            Ok((got, [wallet(FEE, 0), wallet(FEE, 1)]))
        });
        let (got, left) = res.map_err(|e: String| ("claim-refused".to_string(), e))?;
        let tol = qu(r.loss + 2);
        r.claims.clear();
        for (v, g) in &got {
            for a in 0..ST {
                for c in 0..2 {
                    r.claims.push(g[a][c]);
                    let (lo, hi) = r.due(k, *v, a, c);
                    if qu(g[a][c]) > hi + one() { return Err(("too-much".into(), format!("account {} gets {} of currency {} out of vault {}, entitled to at most {}", a, g[a][c], c, v, f(&r.due(k, *v, a, c).1)))) }
                    if qu(g[a][c]) + &tol < lo { return Err(("too-little".into(), format!("account {} gets {} of currency {} out of vault {}, entitled to {}", a, g[a][c], c, v, f(&lo)))) }
                }
            }
        }
        for c in 0..2 { if left[c] > r.loss + 2 { return Err(("undistributed".into(), format!("{} units of currency {} remain in the fee pool after everybody cashed out (at most {} by rounding)", left[c], c, r.loss + 2))) } }
        Ok(())
    }
    fn inner(&self, r: &RState, op: &Op) -> Result<(RState, String), (String, String)> {
        let k = &self.b.cfg;
        let (s, label) = self.b.step(&r.s, op)?;
        let mut n = r.clone();
        if label != "ok" { return Ok((n, label)) }
        let (pre, post) = (&r.s.obs, &s.obs);
        n.loss += 3 * pre.v.len() as u128;
        for v in 0..pre.v.len() {
            let (x, y) = (&pre.v[v], &post.v[v]);
            let changed = x.stake != y.stake || x.total != y.total || x.nonce != y.nonce || x.rstake != y.rstake || x.status != y.status;
            // once a vault has paid commission its rewards have been shared out
            let paid = s.paid[k.vaults[v].0];
            if changed || paid.iter().any(|x| *x > 0) {
                n.freeze(v, pre);
                for c in 0..2 {
                    let (lo, hi) = n.com.remove(&(v, c)).unwrap_or((zero(), zero()));
                    if qu(paid[c]) > hi { return Err(("commission".into(), format!("vault {} was paid {} as commission, at most {} is due", v, paid[c], f(&hi)))) }
                    if qu(paid[c] + n.loss + 2) < lo { return Err(("commission".into(), format!("vault {} was paid {} as commission, {} is due", v, paid[c], f(&lo)))) }
                }
            }
            if x.total > 0 && y.total == 0 && (0..ST).any(|a| a != k.vaults[v].0 && x.stake[a] > 0) && x.nonce == y.nonce { n.dead = true }
            if r.s.slashed[v] && y.total < x.total && matches!(op, Op::CancelRedeem(..) | Op::Report(..)) { n.dead = true }
        }
        for a in 0..N { if !k.vaults.iter().any(|x| x.0 == a) && s.paid[a] != [0, 0] { return Err(("paid".into(), "somebody without a vault was paid".into())) } }
        n.dead |= s.dead;
        let (fin, fout): (u128, u128) = (post.bal[FEE][WRA].0 + s.paid.iter().map(|x| x[0]).sum::<u128>(), pre.bal[FEE][WRA].0);
        n.charge(k, post, 0, fin - fout);
        n.s = s;
        Ok((n, label))
    }
}
impl Machine for Rewards {
    type State = RState;
    type Op = ROp;
    fn initial(&self) -> Vec<(String, RState)> { self.start.clone() }
    fn ops(&self, r: &RState) -> Vec<ROp> { if r.dead { vec![] } else { (self.menu)(self, r) } }
    fn key(&self, r: &RState) -> u128 {
        let mut b = r.s.obs.clone();
        b.is.clear();
        kit::fp(format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {}", b.normalised(), r.ent, r.com, r.pend, r.rates, r.rate, r.claims, r.dead).as_bytes())
    }
    fn step(&self, r: &RState, op: &ROp) -> Result<(RState, String), (String, String)> {
        let k = &self.b.cfg;
        let (mut n, label) = match op {
            ROp::B(op) => self.inner(r, op)?,
            ROp::Fee(v, x) => {
                let (n, l) = self.inner(r, &Op::Issue(*v, U, *x, NAT))?;
                if l != "ok" { (r.clone(), l) } else { let i = n.s.obs.is.len() - 1; self.inner(&n, &Op::ExecIssue(i, U, *x, true))? }
            }
            _ => {
                let ((pre, res, post), map) = mcstore::isolated(r.s.map.clone(), || {
                    let pre = r.s.obs.clone();
                    let res = match op {
                        ROp::Native(x) => rt::tx(|| {
                            let a = rt::Amount::<rt::Test>::new(*x, rt::NATIVE);
                            a.mint_to(&real::acc(FEE))?;
                            rt::Fee::distribute_rewards(&a)
                        }).map_err(|e| rt::err_name(&e)),
                        ROp::Commission(v, p) => rt::tx(|| rt::Fee::set_commission(rt::signed(real::acc(k.vaults[*v].0)), real::pair(k.vaults[*v].1), rt::FixedU128::from_inner(*p))).map(|_| ()).map_err(|e| rt::err_name(&e)),
                        ROp::Claim(v, a, i) => claim(k, *v, *a, *i),
                        _ => unreachable!(),
                    };
                    (pre, res, real::observe(k, &r.s.ids))
                });
                let mut n = r.clone();
                n.s.map = map;
                let mut want = pre.clone();
                match op {
                    ROp::Native(x) => {
                        if let Err(e) = &res { return Err(("native:refused".into(), e.clone())) }
                        let to = if pre.cap_total == 0 { TRE } else { FEE };
                        want.bal[to][NAT].0 += x;
                        want.supply[NAT] += x;
                        n.loss += 3 * pre.v.len() as u128;
                        if to == FEE { n.charge(k, &pre, 1, *x) }
                    }
                    ROp::Commission(v, p) => {
                        let allowed = pre.v[*v].opted && pre.nomination && *p <= D;
                        if allowed != res.is_ok() { return Err(("commission:rights".into(), format!("set_commission({}) gave {:?}, vault opted in: {}", p, res, pre.v[*v].opted))) }
                        if allowed { n.rate[*v] = *p; let (lo, hi) = n.rates[*v]; let none = !n.pend.keys().any(|x| x.0 == *v); n.rates[*v] = if none { (*p, *p) } else { (lo.min(*p), hi.max(*p)) } }
                    }
                    ROp::Claim(v, a, i) => {
                        if let Err(e) = &res { return Err(("claim-refused".into(), e.clone())) }
                        n.loss += 3 * pre.v.len() as u128;
                        n.freeze(*v, &pre);
                        let nonce = i.unwrap_or(pre.v[*v].nonce);
                        for c in 0..2 {
                            for b in 0..ST {
                                let x = post.bal[b][RC[c]].0 - pre.bal[b][RC[c]].0;
                                want.bal[b][RC[c]].0 += x;
                                want.bal[FEE][RC[c]].0 = want.bal[FEE][RC[c]].0.saturating_sub(x);
                                // the claimer gets its reward, the owner the commission on what had to be shared out
                                let (mut lo, mut hi) = (zero(), zero());
                                if b == *a { let e = get(&n.ent, &(*v, nonce, b, c)); lo = lo + e.0; hi = hi + e.1 }
                                if b == k.vaults[*v].0 { let e = get(&n.com, &(*v, c)); lo = lo + e.0; hi = hi + e.1 }
                                if qu(x) > &hi + one() { return Err(("too-much".into(), format!("account {} got {} by a claim on vault {} pool {}, entitled to at most {}", b, x, v, nonce, f(&hi)))) }
                                if qu(x + n.loss + 2) < lo { return Err(("too-little".into(), format!("account {} got {} by a claim on vault {} pool {}, entitled to {}", b, x, v, nonce, f(&lo)))) }
                            }
                            n.com.remove(&(*v, c));
                        }
                        // everything due has been paid: rounding stays in the pool
                        n.ent.remove(&(*v, nonce, *a, 0));
                        n.ent.remove(&(*v, nonce, *a, 1));
                    }
                    _ => {}
                }
                if want != post { return Err((format!("{:?}:differs", op).split('(').next().unwrap().to_string(), diff(&want, &post).1)) }
                n.s.obs = post;
                (n, if res.is_ok() { "ok".into() } else { format!("refused {}", res.unwrap_err()) })
            }
        };
        if !n.dead { self.cash_out(&mut n)? }
        Ok((n, format!("{} {}", format!("{:?}", op).split(|c: char| c == '(').next().unwrap(), label)))
    }
}

fn rich(col2: bool) -> Genesis {
    let mut g = genesis(col2);
    for b in g.balances.iter_mut() { b.2 *= 1000 }
    g.issue_griefing = rt::fx(1, 10000);
    g
}
impl Rewards {
    fn add(&mut self, name: &str, from: &RState, ops: &[ROp]) -> RState {
        let mut s = from.clone();
        for op in ops { match self.step(&s, op) { Ok((n, l)) => { if !l.ends_with(" ok") { eprintln!("scenario {}: {:?} -> {}", name, op, l) } s = n } Err(e) => { eprintln!("scenario {}: {:?}: {:?}", name, op, e); break } } }
        self.start.push((name.into(), s.clone()));
        s
    }
}
fn menu(m: &Rewards, r: &RState) -> Vec<ROp> {
    use ROp::*;
    let o = &r.s.obs;
    let mut out = vec![];
    for v in 0..o.v.len() {
        let w = &o.v[v];
        let (own, col) = m.b.cfg.vaults[v];
        let main = v == 0;
        if w.status == 2 { if w.tbr == 0 { out.push(B(Op::Recover(v))) } } else {
            if w.status == 0 { out.push(Fee(v, if main { 70_001 } else { 30_007 })) }
            out.push(B(Op::Accept(v, w.status != 0)));
            if main {
                out.push(B(Op::Deposit(v, 500_003)));
                out.push(B(Op::Withdraw(v, Some(150_001), None)));
                out.push(B(Op::Threshold(v, if w.thr.is_none() { Some(D * 5 / 2) } else { None })));
            }
            if w.issued > w.tbr && o.bal[own][WRA].0 > 2000 { out.push(B(Op::SelfRedeem(v, 2000))) }
        }
        out.push(Claim(v, own, None));
        if main {
            out.push(B(if w.opted { Op::OptOut(v) } else { Op::OptIn(v) }));
            if w.opted {
                out.push(B(Op::Nominate(v, N, 200_003)));
                for p in [0, D * 3 / 10, D] { if p != r.rate[v] { out.push(Commission(v, p)) } }
                if w.stake[N] > 0 { out.push(B(Op::NomWithdraw(v, N, Some(w.stake[N] / 3 + 1), None))); out.push(B(Op::NomWithdraw(v, N, None, None))) }
            }
            out.push(Claim(v, N, None));
            for n in 0..w.nonce { for a in [own, N] { if r.ent.contains_key(&(v, n, a, 0)) || w.old.contains_key(&(n, a)) { out.push(Claim(v, a, Some(n))) } } }
            out.push(B(Op::Price(col, if o.price[col] == D { D * 3 / 2 } else { D })));
            if m.b.plan.liq > 0 { out.push(B(Op::Price(col, 4 * D))); }
        }
        if o.below(col, w.total, w.issued, m.b.cfg.liquidation) && w.status != 2 { out.push(B(Op::Report(v))) }
    }
    out.push(Native(10_007));
    for (i, x) in o.rd.iter().enumerate() { if x.status == PENDING {
        out.push(B(Op::ExecRedeem(i, Pay::Good)));
        if o.expired(x.open, x.height, x.period) { for b in [true, false] { out.push(B(Op::CancelRedeem(i, x.who, b))) } }
    } }
    out
}
/// every fee is the rounded fraction of its base, for all rates and amounts of the tables; rates are bounded and only root sets them
fn fees(ctx: &mut Ctx) {
    use rt::Amount;
    use rt::{Fee, FixedU128 as F, Test};
    let g = genesis(false).build();
    let rates = [0, 1, 1_500_000_000_000_000, D / 1000, D / 100, D / 7, D / 3, D / 2, D / 2 + 1, D - 1, D];
    let mut amounts: Vec<u128> = (0..ctx.pick(400, 4000)).collect();
    for e in 3..18 { let p = 10u128.pow(e); amounts.extend([p - 1, p, p + 1, p * 2 / 3, p * 3 / 2 + 1]) }
    let rc = rates.to_vec();
    par(ctx, &rc, |ctx, r| {
        mcstore::isolated(g.clone(), || {
            let set: [(&str, fn(rt::RuntimeOrigin, F) -> frame_support::dispatch::DispatchResultWithPostInfo); 5] = [("issue", Fee::set_issue_fee), ("issue griefing", Fee::set_issue_griefing_collateral), ("redeem", Fee::set_redeem_fee), ("punishment", Fee::set_punishment_fee), ("replace griefing", Fee::set_replace_griefing_collateral)];
            let of: [fn(&Amount<Test>) -> Result<Amount<Test>, frame_support::dispatch::DispatchError>; 5] = [Fee::get_issue_fee, Fee::get_issue_griefing_collateral, Fee::get_redeem_fee, Fee::get_punishment_fee, Fee::get_replace_griefing_collateral];
            for (i, (name, set)) in set.iter().enumerate() {
                ctx.ensure("rights", rt::tx(|| set(rt::signed(10), F::from_inner(*r)).map_err(|e| e.error)).is_err(), || format!("a user could set the {} fee", name));
                ctx.ensure("set", rt::tx(|| set(rt::root(), F::from_inner(*r)).map_err(|e| e.error)).is_ok(), || format!("the {} fee could not be set to {}", name, r));
                ctx.ensure("above-one", rt::tx(|| set(rt::root(), F::from_inner(D + 1 + *r)).map_err(|e| e.error)).is_err(), || format!("the {} fee could be set above 100 percent", name));
                for a in &amounts {
                    let got = of[i](&Amount::new(*a, rt::WRAPPED)).map(|x| x.amount()).ok();
                    let exact = qu(*a) * fixedu(*r);
                    // nearest, ties up
                    let want = floor(&(exact + qf(1, 2))) as u128;
                    ctx.case(1);
                    ctx.eq(&format!("fee:{}", name), || format!("{} fee of {} at rate {}e-18", name, a, r), &got, &Some(want));
                }
            }
            rt::tx(|| Fee::set_premium_redeem_fee(rt::root(), F::from_inner(*r)).map_err(|e| e.error)).unwrap();
            for a in &amounts {
                let got = Fee::get_premium_redeem_fee(&Amount::new(*a, rt::COL)).map(|x| x.amount()).ok();
                ctx.case(1);
                ctx.eq("fee:premium", || format!("premium on {} at rate {}e-18", a, r), &got, &Some(floor(&(qu(*a) * fixedu(*r))) as u128));
            }
        });
    });
    ctx.bound(format!("fee formulas: {} rates x {} amounts x 6 fees", rates.len(), amounts.len()));
}
pub fn check(ctx: &mut Ctx) {
    fees(ctx);
    use ROp::*;
    for (name, col2, vaults) in [("one collateral currency", false, two()), ("two collateral currencies", true, vec![(0, 0), (1, 1)])] {
        let (mut b, s) = bridge(&rich(col2), vaults, plan(0, 0, 0, if col2 { 0 } else { 1 }, 0, 0, 0, [0, 0, 0]));
        b.commission = true;
        let mut m = Rewards { b, start: vec![], menu };
        let s = m.add("two vaults", &RState::of(&s), &[B(Op::Register(A, 1_000_000)), B(Op::Register(1, 700_000)), Fee(A, 300_000), Fee(1, 100_000)]);
        let n = m.add("nominated", &s, &[B(Op::OptIn(A)), B(Op::Limit(A, 600_000)), Commission(A, D / 10), B(Op::Nominate(A, N, 300_001)), Fee(A, 50_003), Native(7001)]);
        m.add("refunded", &n, &[B(Op::OptOut(A)), Fee(A, 10_007), B(Op::OptIn(A)), B(Op::Nominate(A, N, 100_003)), Native(3001)]);
        m.add("expired redeem", &n, &[B(Op::Redeem(A, U, 100_000)), B(Op::Time(11, 3))]);
        m.add("slashed", &n, &[B(Op::Redeem(A, U, 100_000)), B(Op::Time(11, 3)), B(Op::CancelRedeem(0, U, true)), Fee(1, 20_011)]);
        m.add("not accepting", &n, &[B(Op::Accept(A, false)), Fee(1, 20_011), B(Op::Accept(1, false))]);
        if !col2 { m.add("liquidated", &s, &[Native(5003), B(Op::Price(0, 4 * D)), B(Op::Report(A)), B(Op::Price(0, D)), Fee(1, 10_001)]); }
        let d = ctx.pick(3, 4);
        let st = bfs(ctx, &m, d, ctx.pick(600_000, 4_000_000));
        ctx.bound(format!("{}: every history of up to {} operations from {} starting states ({}), {} distinct states; in each of them everybody cashes out", name, d, m.start.len(), m.start.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", "), st));
    }
    ctx.assume("histories in which a pool is slashed twice or completely are not continued (V08 decides those)");
    ctx.assume("a commission rate changed while rewards wait to be shared out may apply to them or not");
}
