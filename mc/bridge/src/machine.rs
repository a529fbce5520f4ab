//! Lock-step exploration: every operation runs on the real pallets and on the specification.
use crate::{real, real::Ids, spec::*};
use kit::System as Machine;
use mcstore::Map;
use rt::Genesis;

#[derive(Clone)]
pub struct State { pub map: Map, pub ids: Ids, pub obs: Obs, /** pools in which nominators were slashed before: their shares are V08's business */ pub slashed: Vec<bool>, /** stakes of a pool exceed its total (a V08 finding): not continued */ pub dead: bool, /** wrapped and native tokens that left the fee pool during the last step */ pub paid: [[u128; 2]; ACC] }
/// how thoroughly a group of operations is exercised: 0 not, 1 representatives, 2 with all edges
#[derive(Clone, Default)]
pub struct Plan { pub issue: u8, pub redeem: u8, pub replace: u8, pub liq: u8, pub coll: u8, pub nom: u8, pub admin: u8, pub caps: [usize; 3] }
pub struct Bridge { /** compare all queries with every reached state */ pub queries: Option<Genesis>, /** vaults may be paid commission by any operation */ pub commission: bool, pub cfg: Cfg, pub scenarios: Vec<(String, State)>, pub plan: Plan }

pub const ALL: &str = "real result and the complete observable state (balances, supply, vaults, liquidation vaults, stakes, totals, requests, reward stakes) equal the specification's";

impl Cfg {
    pub fn of(g: &Genesis, vaults: Vec<(usize, usize)>) -> Cfg {
        let i = |x: rt::FixedU128| x.into_inner();
        Cfg { vaults, secure: i(g.secure), liquidation: i(g.liquidation), issue_fee: i(g.issue_fee), issue_griefing: i(g.issue_griefing), redeem_fee: i(g.redeem_fee), premium_fee: i(g.premium_fee), punishment_fee: i(g.punishment_fee), replace_griefing: i(g.replace_griefing), delay: g.punishment_delay, dust: g.dust, inclusion: 2 * g.tx_size as u128 }
    }
}
pub fn start(g: &Genesis, cfg: &Cfg) -> State {
    let ids: Ids = Default::default();
    let (obs, map) = mcstore::isolated(g.build(), || real::observe(cfg, &ids));
    State { map, ids, obs, slashed: vec![false; cfg.vaults.len()], dead: false, paid: Default::default() }
}
fn kind(op: &Op) -> String { format!("{:?}", op).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string() }

/// names of the fields in which the two states differ, and one readable difference
pub fn diff(a: &Obs, b: &Obs) -> (Vec<String>, String) {
    let mut names = vec![];
    let mut text = vec![];
    macro_rules! d { ($n:expr, $x:expr, $y:expr) => { if $x != $y { names.push($n.to_string()); text.push(format!("{}: specified {:?}, implementation {:?}", $n, $x, $y)); } } }
    for i in 0..ACC { for c in 0..CUR { if a.bal[i][c] != b.bal[i][c] { d!(format!("balance{}", if c == WRA { "-wrapped" } else if c == NAT { "-native" } else { "-collateral" }), (i, c, a.bal[i][c]), (i, c, b.bal[i][c])) } } }
    d!("supply", a.supply, b.supply);
    for (x, y) in a.v.iter().zip(&b.v) {
        d!("exists", x.exists, y.exists); d!("status", x.status, y.status); d!("issued", x.issued, y.issued); d!("to-be-issued", x.tbi, y.tbi); d!("to-be-redeemed", x.tbr, y.tbr); d!("to-be-replaced", x.tbrep, y.tbrep);
        d!("replace-collateral", x.rc, y.rc); d!("active-replace-collateral", x.arc, y.arc); d!("liquidated-collateral", x.liqc, y.liqc); d!("banned", x.banned, y.banned); d!("threshold", x.thr, y.thr);
        d!("stake", x.stake, y.stake); d!("total-stake", x.total, y.total); d!("nonce", x.nonce, y.nonce); d!("old-stake", x.old, y.old); d!("reward-stake", x.rstake, y.rstake); d!("opted", x.opted, y.opted); d!("limit", x.limit, y.limit);
    }
    d!("liquidation-vault", a.liq, b.liq); d!("total-collateral", a.tuvc, b.tuvc); d!("ceiling", a.ceil, b.ceil); d!("minimum", a.min, b.min); d!("capacity", a.cap, b.cap); d!("capacity-total", a.cap_total, b.cap_total); d!("price", a.price, b.price);
    d!("issue-requests", a.is, b.is); d!("redeem-requests", a.rd, b.rd); d!("replace-requests", a.rp, b.rp);
    d!("time", (a.now, a.height), (b.now, b.height)); d!("nomination", a.nomination, b.nomination); d!("periods", a.periods, b.periods);
    names.sort();
    names.dedup();
    (names, text.join("; "))
}
/// stakes are kept with 18-decimal factors: replace the specified ones by the real ones where they may legitimately differ
fn accept_rounding(pre: &Obs, want: &mut Obs, got: &Obs, slashed: &mut Vec<bool>, k: &Cfg) -> bool {
    let mut dead = false;
    for i in 0..want.v.len() {
        let owner = k.vaults[i].0;
        let others = (0..ST).any(|a| a != owner && pre.v[i].stake[a] > 0);
        let total_down = got.v[i].total < pre.v[i].total;
        let many = total_down && others && (0..ST).filter(|a| got.v[i].stake[*a] < pre.v[i].stake[*a]).count() > 1 && got.v[i].nonce == pre.v[i].nonce;
        let was = slashed[i];
        if many { slashed[i] = true }
        if got.v[i].nonce != pre.v[i].nonce { slashed[i] = false }
        let (w, g) = (&mut want.v[i], &got.v[i]);
        if was && many {
            // later slashes follow nominal stakes: only monotonicity and the sum are fixed
            let sum = |s: &[u128; ST]| s.iter().sum::<u128>();
            if (0..ST).all(|a| g.stake[a] <= pre.v[i].stake[a]) { w.stake = g.stake; dead |= sum(&g.stake) > g.total + 2 }
        } else if was || many {
            for a in 0..ST { if w.stake[a].abs_diff(g.stake[a]) <= 2 { w.stake[a] = g.stake[a] } }
        }
        if was && w.total.abs_diff(g.total) == 1 {
            // fractions of a unit left by slashes: not continued
            dead = true;
            w.total = g.total;
            if w.rstake.abs_diff(g.rstake) <= 1 { w.rstake = g.rstake }
            let c = k.vaults[i].1;
            if want.cap[c].abs_diff(got.cap[c]) <= 1 { want.cap[c] = got.cap[c]; want.cap_total = got.cap_total }
        }
        let (w, g) = (&mut want.v[i], &got.v[i]);
        if was || many || pre.v[i].nonce > 0 || w.nonce > 0 {
            for (key, x) in &g.old { let y = w.old.get(key).cloned().unwrap_or(0); if x.abs_diff(y) <= 2 { w.old.insert(*key, *x); } }
            let zero: Vec<_> = w.old.iter().filter(|(key, x)| **x <= 2 && !g.old.contains_key(key)).map(|x| *x.0).collect();
            for z in zero { w.old.remove(&z); }
        }
    }
    dead
}

impl Bridge {
    /// run setup operations (all of which must succeed and agree with the specification)
    pub fn scenario(&mut self, name: &str, from: &State, ops: &[Op]) -> State {
        let mut s = from.clone();
        for op in ops {
            match self.step(&s, op) {
                Ok((n, label)) => { if label != "ok" { eprintln!("scenario {}: {:?} -> {}", name, op, label); } s = n }
                // the violation will be found again by the exploration of the scenario before it
                Err(e) => { eprintln!("scenario {}: {:?}: {:?}", name, op, e); break }
            }
        }
        self.scenarios.push((name.to_string(), s.clone()));
        s
    }
}
impl Machine for Bridge {
    type State = State;
    type Op = Op;
    fn initial(&self) -> Vec<(String, State)> { self.scenarios.clone() }
    fn ops(&self, s: &State) -> Vec<Op> { if s.dead { vec![] } else { crate::ops::ops(self, s) } }
    fn key(&self, s: &State) -> u128 {
        let mut b = format!("{:?}", s.obs.normalised()).into_bytes();
        b.extend_from_slice(format!("{:?}", s.slashed).as_bytes());
        kit::fp(&b)
    }
    fn step(&self, s: &State, op: &Op) -> Result<(State, String), (String, String)> {
        let k = &self.cfg;
        let name = kind(op);
        let mut ids = s.ids.clone();
        let ((pre, result, post, answers), map) = mcstore::isolated(s.map.clone(), || {
            let mut pre = s.obs.clone();
            let ready = real::prepare(&ids, op);
            pre.height = rt::btc::height();
            let result = real::run(k, &ids, op, ready);
            real::new_ids(&mut ids);
            let post = real::observe(k, &ids);
            let answers = match &self.queries { Some(g) => crate::queries::check(k, &post, &ids, g), None => Ok(()) };
            (pre, result, post, answers)
        });
        answers?;
        if self.queries.is_some() {
            // what the operation itself does is the other properties' business
            let label = match &result { Ok(()) => "ok".into(), Err(e) => format!("refused {}", e) };
            return Ok((State { map, ids, obs: post, slashed: s.slashed.clone(), dead: false, paid: Default::default() }, label));
        }
        let want = pre.apply(k, op);
        match (want, &result) {
            (Ok(mut w), Ok(())) => {
                let mut slashed = s.slashed.clone();
                for v in w.v.iter_mut() { v.old.retain(|_, x| *x != 0) }
                let dead = accept_rounding(&pre, &mut w, &post, &mut slashed, k);
                let mut paid = [[0; 2]; ACC];
                if self.commission {
                    for a in 0..N { for (i, c) in [WRA, NAT].into_iter().enumerate() {
                        let x = post.bal[a][c].0.saturating_sub(w.bal[a][c].0).min(w.bal[FEE][c].0);
                        paid[a][i] = x;
                        w.bal[a][c].0 += x;
                        w.bal[FEE][c].0 -= x;
                    } }
                }
                if w != post {
                    let (names, text) = diff(&w, &post);
                    return Err((format!("{}:differs:{}", name, names.join(",")), text));
                }
                if !dead { if let Err((key, m)) = post.invariants(k) { return Err((format!("invariant:{}:{}", key, name), m)) } }
                Ok((State { map, ids, obs: post, slashed, dead, paid }, "ok".into()))
            }
            (Err(_), Err(e)) => {
                if pre != post { let (names, text) = diff(&pre, &post); return Err((format!("{}:refused-but-changed:{}", name, names.join(",")), text)) }
                Ok((State { paid: Default::default(), ..s.clone() }, format!("refused {}", e)))
            }
            (Err(e), Ok(())) => Err((format!("{}:accepted:{}", name, e), format!("accepted although: {}", e))),
            (Ok(_), Err(e)) => Err((format!("{}:refused:{}", name, e), format!("refused with {} although the rules allow it", e))),
        }
    }
}
