//! What a bridge operation has to do, written from the protocol rules alone: a pure function from an observed state and
//! an operation to the state that must be observed afterwards, or to a refusal that must leave everything as it was.
use std::collections::BTreeMap;

pub const D: u128 = 1_000_000_000_000_000_000;
/// currencies: two collaterals, native (griefing), wrapped
pub const CUR: usize = 4;
pub const NAT: usize = 2;
pub const WRA: usize = 3;
/// accounts: vault owners A, B; nominator N; user U; fee pool; treasury; liquidation vault
pub const ACC: usize = 7;
pub const N: usize = 2;
pub const U: usize = 3;
pub const FEE: usize = 4;
pub const TRE: usize = 5;
pub const LIQ: usize = 6;
/// accounts that can hold stake
pub const ST: usize = 4;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Vault {
    pub exists: bool,
    pub status: u8, // 0 active accepting, 1 active not accepting, 2 liquidated
    pub issued: u128,
    pub tbi: u128,
    pub tbr: u128,
    pub tbrep: u128,
    pub rc: u128,
    pub arc: u128,
    pub liqc: u128,
    pub banned: Option<u64>,
    pub thr: Option<u128>,
    pub stake: [u128; ST],
    pub total: u128,
    pub nonce: u64,
    pub old: BTreeMap<(u64, usize), u128>,
    pub rstake: u128,
    pub opted: bool,
    pub limit: u128,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Liq { pub issued: u128, pub tbi: u128, pub tbr: u128, pub col: u128 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct IssueR { pub v: usize, pub who: usize, pub amount: u128, pub fee: u128, pub grief: u128, pub gcur: usize, pub open: u64, pub height: u32, pub period: u64, pub status: u8 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RedeemR { pub v: usize, pub who: usize, pub fee: u128, pub inc: u128, pub amount: u128, pub premium: u128, pub open: u64, pub height: u32, pub period: u64, pub status: u8 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ReplaceR { pub old: usize, pub new: usize, pub amount: u128, pub grief: u128, pub col: u128, pub open: u64, pub height: u32, pub period: u64, pub status: u8 }
pub const PENDING: u8 = 0;
pub const COMPLETED: u8 = 1;
pub const CANCELLED: u8 = 2; // issue, replace; redeem: retried
pub const REIMBURSED_MINTED: u8 = 3;
pub const REIMBURSED: u8 = 4;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    /// (free, reserved) per account and currency
    pub bal: [[(u128, u128); CUR]; ACC],
    pub supply: [u128; CUR],
    pub v: Vec<Vault>,
    pub liq: [Liq; 2],
    pub tuvc: [u128; 2],
    pub ceil: [u128; 2],
    pub min: [u128; 2],
    pub cap: [u128; 2],
    pub cap_total: u128,
    pub price: [u128; 3],
    pub is: Vec<IssueR>,
    pub rd: Vec<RedeemR>,
    pub rp: Vec<ReplaceR>,
    pub now: u64,
    pub height: u32,
    pub nomination: bool,
    pub periods: [u64; 3],
}
/// the fixed parameters
#[derive(Clone, Debug)]
pub struct Cfg {
    /// (owner account, collateral currency)
    pub vaults: Vec<(usize, usize)>,
    pub secure: u128,
    pub liquidation: u128,
    pub issue_fee: u128,
    pub issue_griefing: u128,
    pub redeem_fee: u128,
    pub premium_fee: u128,
    pub punishment_fee: u128,
    pub replace_griefing: u128,
    pub delay: u64,
    pub dust: u128,
    pub inclusion: u128,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pay { Good, WrongAddress, WrongId, Less, More }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Register(usize, u128),
    Deposit(usize, u128),
    Withdraw(usize, Option<u128>, Option<u64>),
    Accept(usize, bool),
    Threshold(usize, Option<u128>),
    Recover(usize),
    Report(usize),
    OptIn(usize),
    OptOut(usize),
    Limit(usize, u128),
    /// vault, nominator account, amount
    Nominate(usize, usize, u128),
    NomWithdraw(usize, usize, Option<u128>, Option<u64>),
    Nomination(bool),
    Ceiling(usize, u128),
    Min(usize, u128),
    Price(usize, u128),
    /// issue, redeem, replace period
    Period(usize, u64),
    Issue(usize, usize, u128, usize),
    /// request, executor, amount paid, to the right address
    ExecIssue(usize, usize, u128, bool),
    CancelIssue(usize, usize),
    Redeem(usize, usize, u128),
    ExecRedeem(usize, Pay),
    CancelRedeem(usize, usize, bool),
    /// request, vault calling
    Mint(usize, usize),
    SelfRedeem(usize, u128),
    LiqRedeem(usize, usize, u128),
    ReqReplace(usize, u128),
    WithdrawReplace(usize, u128),
    /// new vault, old vault, amount, collateral
    AcceptReplace(usize, usize, u128, u128),
    ExecReplace(usize, Pay),
    CancelReplace(usize),
    Time(u64, u32),
}

type R<T = ()> = Result<T, &'static str>;
fn ensure(c: bool, e: &'static str) -> R { if c { Ok(()) } else { Err(e) } }
fn sub(a: &mut u128, b: u128, e: &'static str) -> R { *a = a.checked_sub(b).ok_or(e)?; Ok(()) }

// 256-bit free: all amounts here stay far below 2^64
pub fn mulf(a: u128, f: u128) -> u128 { a * f / D }
pub fn mulc(a: u128, f: u128) -> u128 { (a * f + D - 1) / D }
/// nearest, ties up
pub fn muln(a: u128, f: u128) -> u128 { (a * f + D / 2) / D }
pub fn divf(a: u128, f: u128) -> u128 { a * D / f }
/// a share, everything when nothing is divided by nothing
fn share(a: u128, n: u128, d: u128) -> R<u128> { if n == 0 && d == 0 { Ok(a) } else if d == 0 { Err("division by zero") } else { Ok(a * n / d) } }

impl Obs {
    pub fn w2c(&self, c: usize, a: u128) -> u128 { mulf(a, self.price[c]) }
    pub fn c2w(&self, c: usize, a: u128) -> u128 { if a == 0 { 0 } else { divf(a, self.price[c]) } }
    pub fn below(&self, c: usize, col: u128, tokens: u128, thr: u128) -> bool { divf(self.c2w(c, col), thr) < tokens }
    pub fn thr(&self, k: &Cfg, v: usize) -> u128 { self.v[v].thr.unwrap_or(0).max(k.secure) }
    pub fn banned(&self, v: usize) -> bool { self.v[v].banned.map_or(false, |b| self.now <= b) }
    pub fn active(&self, v: usize) -> R { ensure(self.v[v].exists, "no vault")?; ensure(self.v[v].status != 2, "liquidated") }
    pub fn backed(&self, v: usize) -> u128 { self.v[v].issued + self.v[v].tbi }
    pub fn issuable(&self, k: &Cfg, v: usize) -> u128 {
        if self.banned(v) { return 0 }
        let (c, t, total) = (k.vaults[v].1, self.thr(k, v), self.v[v].total);
        let used = mulf(self.w2c(c, self.backed(v)), t).min(total);
        divf(self.c2w(c, total - used), t)
    }
    pub fn expired(&self, open: u64, height: u32, period: u64) -> bool { self.now > open + period && self.height as u64 > height as u64 + (period + 4) / 5 }
    pub fn nominated(&self, k: &Cfg, v: usize) -> R<u128> { self.v[v].total.checked_sub(self.v[v].stake[k.vaults[v].0]).ok_or("negative nomination") }

    fn take_free(&mut self, a: usize, c: usize, x: u128) -> R { sub(&mut self.bal[a][c].0, x, "free balance too low") }
    fn lock(&mut self, a: usize, c: usize, x: u128) -> R { self.take_free(a, c, x)?; self.bal[a][c].1 += x; Ok(()) }
    fn unlock(&mut self, a: usize, c: usize, x: u128) -> R { sub(&mut self.bal[a][c].1, x, "reserved balance too low")?; self.bal[a][c].0 += x; Ok(()) }
    fn transfer(&mut self, a: usize, b: usize, c: usize, x: u128) -> R { self.take_free(a, c, x)?; self.bal[b][c].0 += x; Ok(()) }
    fn mint(&mut self, a: usize, x: u128) { self.bal[a][WRA].0 += x; self.supply[WRA] += x }
    fn burn_locked(&mut self, a: usize, x: u128) -> R { sub(&mut self.bal[a][WRA].1, x, "reserved balance too low")?; self.supply[WRA] -= x; Ok(()) }

    /// fees already credited to the pool account stay there unless nobody can earn them
    fn distribute(&mut self, x: u128) -> R { if x > 0 && self.cap_total == 0 { self.transfer(FEE, TRE, WRA, x)? } Ok(()) }
    fn cap_update(&mut self, k: &Cfg, c: usize) {
        let sum: u128 = (0..self.v.len()).filter(|i| k.vaults[*i].1 == c).map(|i| self.v[i].rstake).sum();
        self.cap[c] = self.c2w(c, sum);
        self.cap_total = self.cap.iter().sum();
    }
    fn settings(&mut self, k: &Cfg, v: usize) {
        self.v[v].rstake = if self.v[v].status == 0 { divf(self.v[v].total, self.thr(k, v)) } else { 0 };
        self.cap_update(k, k.vaults[v].1);
    }
    fn stake_in(&mut self, k: &Cfg, v: usize, a: usize, x: u128) { self.v[v].stake[a] += x; self.v[v].total += x; self.settings(k, v) }
    fn stake_out(&mut self, k: &Cfg, v: usize, a: usize, x: u128) -> R { sub(&mut self.v[v].stake[a], x, "stake too low")?; sub(&mut self.v[v].total, x, "stake too low")?; self.settings(k, v); Ok(()) }
    /// take x from all stakers in proportion to their stakes
    fn slash(&mut self, k: &Cfg, v: usize, x: u128) -> R {
        let t = self.v[v].total;
        if x == 0 { return Ok(()) }
        ensure(x <= t, "slash more than the stake")?;
        for s in self.v[v].stake.iter_mut() { *s = *s * (t - x) / t }
        self.v[v].total = t - x;
        self.settings(k, v);
        Ok(())
    }
    fn deposit(&mut self, k: &Cfg, v: usize, a: usize, x: u128) -> R {
        let (o, c) = k.vaults[v];
        ensure(self.v[v].exists, "no vault")?;
        if a != o {
            ensure(self.nomination && self.v[v].opted, "not nominatable")?;
            ensure(self.nominated(k, v)? + x <= self.v[v].limit, "limit")?;
            self.transfer(a, o, c, x)?;
        }
        self.stake_in(k, v, a, x);
        self.lock(o, c, x)?;
        self.tuvc[c] += x;
        ensure(self.tuvc[c] <= self.ceil[c], "ceiling")
    }
    pub fn may_withdraw(&self, k: &Cfg, v: usize, x: Option<u128>) -> bool {
        let c = k.vaults[v].1;
        let new = match x { None => 0, Some(x) => match self.v[v].total.checked_sub(x) { Some(n) => n, None => return false } };
        (new == 0 || new >= self.min[c]) && !self.below(c, new, self.backed(v), self.thr(k, v))
    }
    fn withdraw(&mut self, k: &Cfg, v: usize, a: usize, x: Option<u128>, idx: Option<u64>) -> R {
        let (o, c) = k.vaults[v];
        let n = self.v[v].nonce;
        let idx = idx.unwrap_or(0).min(n);
        ensure(self.v[v].exists, "no vault")?;
        let x = if idx == n {
            ensure(self.may_withdraw(k, v, x), "insecure")?;
            ensure(a == o || (self.nomination && self.v[v].opted), "not nominatable")?;
            let x = x.unwrap_or(self.v[v].stake[a]);
            self.stake_out(k, v, a, x)?;
            sub(&mut self.tuvc[c], x, "total")?;
            x
        } else {
            let s = self.v[v].old.entry((idx, a)).or_default();
            let x = x.unwrap_or(*s);
            sub(s, x, "stake too low")?;
            x
        };
        self.unlock(o, c, x)?;
        self.transfer(o, a, c, x)
    }
    /// tokens and griefing collateral of a replace offer that are used up
    fn use_replace(&mut self, v: usize, x: u128) -> R<(u128, u128)> {
        let w = &mut self.v[v];
        let used = x.min(w.tbrep);
        let g = share(w.rc, used, w.tbrep)?.min(w.rc);
        w.tbrep -= used;
        Ok((used, g))
    }
    fn return_offer(&mut self, k: &Cfg, v: usize, g: u128) -> R { sub(&mut self.v[v].rc, g, "rc")?; self.unlock(k.vaults[v].0, NAT, g) }
    fn liquidate(&mut self, k: &Cfg, v: usize) -> R {
        self.active(v)?;
        let (o, c) = k.vaults[v];
        let used = mulf(self.w2c(c, self.backed(v)), k.liquidation).min(self.v[v].total);
        let (_, g) = self.use_replace(v, self.v[v].tbrep)?;
        self.return_offer(k, v, g)?;
        let backed = self.backed(v);
        let tbr = self.v[v].tbr;
        let excl = share(used, backed.checked_sub(tbr).ok_or("tbr")?, backed)?;
        // the part covering pending redeems stays with the vault, from its own stake
        let keep = (used - excl).min(self.v[v].stake[o]);
        self.v[v].liqc += keep;
        self.stake_out(k, v, o, keep)?;
        // the rest goes to the liquidation vault, the vault's own stake first
        let own = self.v[v].stake[o].min(excl);
        self.stake_out(k, v, o, own)?;
        self.slash(k, v, excl - own)?;
        self.unlock(o, c, excl)?;
        self.transfer(o, LIQ, c, excl)?;
        self.lock(LIQ, c, excl)?;
        self.liq[c].col += excl;
        self.liq[c].issued += self.v[v].issued;
        self.liq[c].tbi += self.v[v].tbi;
        self.liq[c].tbr += tbr;
        self.v[v].issued = 0;
        self.v[v].tbi = 0;
        self.v[v].status = 2;
        self.settings(k, v);
        Ok(())
    }
    fn dec_tbi(&mut self, k: &Cfg, v: usize, x: u128) -> R {
        let c = k.vaults[v].1;
        sub(if self.v[v].status == 2 { &mut self.liq[c].tbi } else { &mut self.v[v].tbi }, x, "tbi")
    }
    fn inc_issued(&mut self, k: &Cfg, v: usize, x: u128) { let c = k.vaults[v].1; *(if self.v[v].status == 2 { &mut self.liq[c].issued } else { &mut self.v[v].issued }) += x }
    fn dec_issued(&mut self, k: &Cfg, v: usize, x: u128) -> R { let c = k.vaults[v].1; sub(if self.v[v].status == 2 { &mut self.liq[c].issued } else { &mut self.v[v].issued }, x, "issued") }
    fn dec_tbr(&mut self, k: &Cfg, v: usize, x: u128) -> R {
        let c = k.vaults[v].1;
        if self.v[v].status == 2 { sub(&mut self.liq[c].tbr, x, "liq tbr")? }
        sub(&mut self.v[v].tbr, x, "tbr")
    }
    fn inc_tbi(&mut self, k: &Cfg, v: usize, x: u128) -> R { self.active(v)?; ensure(self.issuable(k, v) >= x, "vault limit")?; self.v[v].tbi += x; Ok(()) }
    fn inc_tbr(&mut self, v: usize, x: u128) -> R { self.active(v)?; ensure(self.v[v].issued.checked_sub(self.v[v].tbr).ok_or("tbr")? >= x, "committed")?; self.v[v].tbr += x; Ok(()) }
    fn fee_to_pool(&mut self, a: usize, x: u128) -> R { self.unlock(a, WRA, x)?; self.transfer(a, FEE, WRA, x)?; self.distribute(x) }
    pub fn premium(&self, k: &Cfg, v: usize, user: u128) -> R<u128> {
        let c = k.vaults[v].1;
        let plain = mulf(self.w2c(c, user), k.premium_fee);
        let open = self.backed(v).checked_sub(self.v[v].tbr).ok_or("tbr")?;
        let required = self.w2c(c, mulc(open, k.secure));
        let missing = required.saturating_sub(self.v[v].total);
        Ok(mulf(missing, divf(k.premium_fee, k.secure - k.premium_fee)).min(plain))
    }

    pub fn apply(&self, k: &Cfg, op: &Op) -> R<Obs> {
        let mut s = self.clone();
        s.run(k, op)?;
        Ok(s)
    }
    fn run(&mut self, k: &Cfg, op: &Op) -> R {
        match *op {
            Op::Register(v, x) => {
                ensure(x >= self.min[k.vaults[v].1], "minimum")?;
                ensure(!self.v[v].exists, "exists")?;
                // nomination settings may be older than the vault
                self.v[v].exists = true;
                self.deposit(k, v, k.vaults[v].0, x)
            }
            Op::Deposit(v, x) => self.deposit(k, v, k.vaults[v].0, x),
            Op::Withdraw(v, x, i) => self.withdraw(k, v, k.vaults[v].0, x, i),
            Op::Nominate(v, a, x) => self.deposit(k, v, a, x),
            Op::NomWithdraw(v, a, x, i) => self.withdraw(k, v, a, x, i),
            Op::Accept(v, b) => { self.active(v)?; self.v[v].status = if b { 0 } else { 1 }; self.settings(k, v); Ok(()) }
            Op::Threshold(v, t) => {
                if let Some(t) = t { ensure(t > k.secure, "not above the global threshold")? }
                ensure(self.v[v].exists, "no vault")?;
                self.v[v].thr = t;
                self.settings(k, v);
                Ok(())
            }
            Op::Recover(v) => {
                ensure(self.v[v].exists && self.v[v].status == 2 && self.v[v].tbr == 0, "not recoverable")?;
                self.v[v].status = 0;
                self.settings(k, v);
                Ok(())
            }
            Op::Report(v) => {
                ensure(self.v[v].exists, "no vault")?;
                ensure(self.below(k.vaults[v].1, self.v[v].total, self.v[v].issued, k.liquidation), "not below")?;
                self.liquidate(k, v)
            }
            Op::OptIn(v) => { ensure(self.nomination && self.v[v].exists && !self.v[v].opted, "opt in")?; self.v[v].opted = true; Ok(()) }
            Op::OptOut(v) => {
                let (o, c) = k.vaults[v];
                ensure(self.v[v].opted, "not opted in")?;
                let x = self.nominated(k, v)?;
                ensure(self.may_withdraw(k, v, Some(x)), "insecure")?;
                let n = self.v[v].nonce;
                for a in 0..ST { if a != o { let s = std::mem::take(&mut self.v[v].stake[a]); *self.v[v].old.entry((n, a)).or_default() += s; } }
                self.v[v].nonce += 1;
                self.v[v].total -= x;
                sub(&mut self.tuvc[c], x, "total")?;
                self.v[v].opted = false;
                self.settings(k, v);
                Ok(())
            }
            Op::Limit(v, x) => { self.v[v].limit = x; Ok(()) }
            Op::Nomination(b) => { self.nomination = b; Ok(()) }
            Op::Ceiling(c, x) => { self.ceil[c] = x; Ok(()) }
            Op::Min(c, x) => { self.min[c] = x; Ok(()) }
            Op::Price(c, p) => { self.price[c] = p; if c < 2 { self.cap_update(k, c) } Ok(()) }
            Op::Period(i, x) => { self.periods[i] = x; Ok(()) }
            Op::Time(n, b) => { self.now += n; self.height += b; Ok(()) }

            Op::Issue(v, a, x, g) => {
                self.active(v)?;
                ensure(self.v[v].status == 0 && !self.banned(v), "not accepting")?;
                let grief = muln(self.w2c(g, x), k.issue_griefing);
                self.lock(a, g, grief)?;
                ensure(x >= k.dust, "dust")?;
                self.inc_tbi(k, v, x)?;
                let fee = muln(x, k.issue_fee);
                self.is.push(IssueR { v, who: a, amount: x - fee, fee, grief, gcur: g, open: self.now, height: self.height, period: self.periods[0], status: PENDING });
                Ok(())
            }
            Op::ExecIssue(i, by, p, right) => {
                let r = self.is.get(i).ok_or("no request")?.clone();
                ensure(r.status != COMPLETED, "completed")?;
                ensure(right, "payment")?;
                let expected = r.amount + r.fee;
                let mut total = expected;
                if r.status == CANCELLED {
                    ensure(self.v[r.v].status == 0, "not accepting")?;
                    self.inc_tbi(k, r.v, p)?;
                    ensure(p >= expected || by == r.who, "executor")?;
                    total = p;
                } else if p < expected {
                    ensure(by == r.who, "executor")?;
                    self.dec_tbi(k, r.v, expected - p)?;
                    let release = r.grief * p / expected;
                    self.unlock(r.who, r.gcur, r.grief)?;
                    self.transfer(r.who, TRE, r.gcur, r.grief - release)?;
                    total = p;
                } else {
                    if p > expected && self.v[r.v].status != 2 {
                        let room = if self.v[r.v].status == 0 { self.issuable(k, r.v) } else { 0 };
                        let more = (p - expected).min(room);
                        self.v[r.v].tbi += more;
                        total = expected + more;
                    }
                    self.unlock(r.who, r.gcur, r.grief)?;
                }
                let (amount, fee) = if total != expected { let f = muln(total, k.issue_fee); (total - f, f) } else { (r.amount, r.fee) };
                self.dec_tbi(k, r.v, total)?;
                self.inc_issued(k, r.v, total);
                self.mint(r.who, amount);
                self.mint(FEE, fee);
                self.distribute(fee)?;
                self.is[i] = IssueR { amount, fee, status: COMPLETED, ..r };
                Ok(())
            }
            Op::CancelIssue(i, by) => {
                let r = self.is.get(i).ok_or("no request")?.clone();
                ensure(r.status == PENDING, "not pending")?;
                let period = r.period.max(self.periods[0]);
                let slashed = if self.expired(r.open, r.height, period) { r.grief } else {
                    ensure(by == r.who, "not expired")?;
                    share(r.grief, (self.now - r.open) as u128, period as u128)?.min(r.grief)
                };
                self.unlock(r.who, r.gcur, r.grief)?;
                if self.v[r.v].status != 2 { self.transfer(r.who, TRE, r.gcur, slashed)? }
                self.dec_tbi(k, r.v, r.amount + r.fee)?;
                self.is[i].status = CANCELLED;
                Ok(())
            }
            Op::Redeem(v, a, x) => {
                let (o, _c) = k.vaults[v];
                ensure(self.bal[a][WRA].0 >= x, "balance")?;
                let fee = if a == o { 0 } else { muln(x, k.redeem_fee) };
                let burned = x.checked_sub(fee).ok_or("fee")?;
                let user = burned.checked_sub(k.inclusion).ok_or("dust")?;
                self.active(v)?;
                ensure(!self.banned(v), "banned")?;
                ensure(user >= k.dust, "dust")?;
                let premium = self.premium(k, v, user)?;
                self.inc_tbr(v, burned)?;
                self.lock(a, WRA, x)?;
                let (_, g) = self.use_replace(v, burned)?;
                self.return_offer(k, v, g)?;
                self.rd.push(RedeemR { v, who: a, fee, inc: k.inclusion, amount: user, premium, open: self.now, height: self.height, period: self.periods[1], status: PENDING });
                Ok(())
            }
            Op::ExecRedeem(i, p) => {
                let r = self.rd.get(i).ok_or("no request")?.clone();
                let (o, c) = k.vaults[r.v];
                ensure(r.status == PENDING, "not pending")?;
                ensure(p == Pay::Good, "payment")?;
                let burned = r.amount + r.inc;
                self.burn_locked(r.who, burned)?;
                self.fee_to_pool(r.who, r.fee)?;
                let tbr = self.v[r.v].tbr;
                self.dec_tbr(k, r.v, burned)?;
                self.dec_issued(k, r.v, burned)?;
                if self.v[r.v].status != 2 {
                    self.unlock(o, c, r.premium)?;
                    sub(&mut self.tuvc[c], r.premium, "total")?;
                    self.slash(k, r.v, r.premium)?;
                    self.transfer(o, r.who, c, r.premium)?;
                } else {
                    let x = share(self.v[r.v].liqc, burned, tbr)?;
                    sub(&mut self.tuvc[c], x, "total")?;
                    self.v[r.v].liqc -= x;
                    self.unlock(o, c, x)?;
                }
                self.rd[i].status = COMPLETED;
                Ok(())
            }
            Op::CancelRedeem(i, by, reimburse) => {
                let r = self.rd.get(i).ok_or("no request")?.clone();
                let (v, (o, c)) = (r.v, k.vaults[r.v]);
                ensure(r.status == PENDING && by == r.who, "not pending or not the redeemer")?;
                ensure(self.expired(r.open, r.height, r.period.max(self.periods[1])), "not expired")?;
                let burned = r.amount + r.inc;
                let liquidated = self.v[v].status == 2;
                if liquidated {
                    let x = share(self.v[v].liqc, burned, self.v[v].tbr)?;
                    self.v[v].liqc -= x;
                    self.unlock(o, c, x)?;
                    if reimburse {
                        sub(&mut self.tuvc[c], x, "total")?;
                        self.transfer(o, r.who, c, x)?;
                    } else {
                        self.transfer(o, LIQ, c, x)?;
                        self.lock(LIQ, c, x)?;
                        self.liq[c].col += x;
                    }
                } else {
                    let col = self.w2c(c, burned);
                    let x = (muln(col, k.punishment_fee) + if reimburse { col } else { 0 }).min(self.v[v].total);
                    self.unlock(o, c, x)?;
                    sub(&mut self.tuvc[c], x, "total")?;
                    self.slash(k, v, x)?;
                    self.transfer(o, r.who, c, x)?;
                    self.v[v].banned = Some(self.now + k.delay);
                }
                if reimburse {
                    self.fee_to_pool(r.who, r.fee)?;
                    let secure = !liquidated && !self.below(c, self.v[v].total, self.v[v].issued, self.thr(k, v));
                    self.dec_tbr(k, v, burned)?;
                    if secure {
                        self.unlock(r.who, WRA, burned)?;
                        self.transfer(r.who, o, WRA, burned)?;
                    } else {
                        self.burn_locked(r.who, burned)?;
                        self.dec_issued(k, v, burned)?;
                    }
                    self.rd[i].status = if liquidated || secure { REIMBURSED_MINTED } else { REIMBURSED };
                } else {
                    self.unlock(r.who, WRA, burned + r.fee)?;
                    self.dec_tbr(k, v, burned)?;
                    self.rd[i].status = CANCELLED;
                }
                Ok(())
            }
            Op::Mint(i, v) => {
                let r = self.rd.get(i).ok_or("no request")?.clone();
                ensure(r.status == REIMBURSED && r.v == v, "not reimbursed")?;
                let x = r.amount + r.inc;
                self.inc_tbi(k, v, x)?;
                self.dec_tbi(k, v, x)?;
                self.inc_issued(k, v, x);
                self.mint(k.vaults[v].0, x);
                self.rd[i].status = REIMBURSED_MINTED;
                Ok(())
            }
            Op::SelfRedeem(v, x) => {
                let o = k.vaults[v].0;
                self.active(v)?;
                ensure(!self.banned(v) && x > 0, "banned or zero")?;
                let fee = if x == self.v[v].issued.checked_sub(self.v[v].tbr).ok_or("tbr")? { 0 } else { muln(x, k.redeem_fee) };
                let burned = x.checked_sub(fee).ok_or("fee")?;
                self.lock(o, WRA, burned)?;
                self.burn_locked(o, burned)?;
                self.transfer(o, FEE, WRA, fee)?;
                self.distribute(fee)?;
                self.inc_tbr(v, burned)?;
                self.dec_tbr(k, v, burned)?;
                self.dec_issued(k, v, burned)?;
                let (_, g) = self.use_replace(v, burned)?;
                self.return_offer(k, v, g)
            }
            Op::LiqRedeem(c, a, x) => {
                self.lock(a, WRA, x)?;
                self.burn_locked(a, x)?;
                let l = &mut self.liq[c];
                ensure(l.issued.checked_sub(l.tbr).ok_or("liq tbr")? >= x, "committed")?;
                let backed = l.issued + l.tbi - l.tbr;
                // nothing burned, nothing paid
                let out = if x == 0 { 0 } else { l.col * x / backed };
                l.col -= out;
                l.issued -= x;
                sub(&mut self.tuvc[c], out, "total")?;
                self.unlock(LIQ, c, out)?;
                self.transfer(LIQ, a, c, out)
            }
            Op::ReqReplace(v, x) => {
                let o = k.vaults[v].0;
                self.active(v)?;
                ensure(!self.banned(v) && !self.v[v].opted, "banned or nominatable")?;
                let w = &self.v[v];
                let room = w.issued.checked_sub(w.tbrep + w.tbr).ok_or("tbrep")?;
                let inc = x.min(room);
                ensure(inc > 0 && w.tbrep + inc >= k.dust, "dust")?;
                let g = muln(self.w2c(NAT, inc), k.replace_griefing);
                self.v[v].tbrep += inc;
                self.lock(o, NAT, g)?;
                self.v[v].rc += g;
                Ok(())
            }
            Op::WithdrawReplace(v, x) => {
                ensure(self.v[v].exists, "no vault")?;
                let (used, g) = self.use_replace(v, x)?;
                self.active(v)?;
                ensure(used > 0, "nothing")?;
                self.return_offer(k, v, g)
            }
            Op::AcceptReplace(new, old, x, col) => {
                ensure(new != old, "self")?;
                self.active(new)?;
                ensure(!self.banned(new) && self.v[old].exists, "banned")?;
                let (used, g) = self.use_replace(old, x)?;
                ensure(used >= k.dust, "dust")?;
                let col = share(col, used, x)?;
                self.deposit(k, new, k.vaults[new].0, col)?;
                self.inc_tbr(old, used)?;
                self.inc_tbi(k, new, used)?;
                sub(&mut self.v[old].rc, g, "rc")?;
                self.v[old].arc += g;
                self.rp.push(ReplaceR { old, new, amount: used, grief: g, col, open: self.now, height: self.height, period: self.periods[2], status: PENDING });
                Ok(())
            }
            Op::ExecReplace(i, p) => {
                let r = self.rp.get(i).ok_or("no request")?.clone();
                let o = k.vaults[r.old].0;
                ensure(r.status != COMPLETED && p == Pay::Good, "payment")?;
                if r.status == PENDING {
                    sub(&mut self.v[r.old].arc, r.grief, "arc")?;
                    self.unlock(o, NAT, r.grief)?;
                } else {
                    self.inc_tbr(r.old, r.amount)?;
                    self.inc_tbi(k, r.new, r.amount)?;
                }
                if self.v[r.old].status == 2 {
                    let x = share(self.v[r.old].liqc, r.amount, self.v[r.old].tbr)?;
                    self.v[r.old].liqc -= x;
                    self.stake_in(k, r.old, o, x);
                }
                self.dec_tbr(k, r.old, r.amount)?;
                self.dec_issued(k, r.old, r.amount)?;
                self.dec_tbi(k, r.new, r.amount)?;
                self.inc_issued(k, r.new, r.amount);
                // an offer cannot exceed what is left
                let w = &self.v[r.old];
                let excess = if w.status == 2 { 0 } else { w.tbrep.saturating_sub(w.issued.checked_sub(w.tbr).ok_or("tbr")?) };
                let (_, g) = self.use_replace(r.old, excess)?;
                if excess > 0 { self.return_offer(k, r.old, g)? }
                self.rp[i].status = COMPLETED;
                Ok(())
            }
            Op::CancelReplace(i) => {
                let r = self.rp.get(i).ok_or("no request")?.clone();
                let ((oo, oc), (no, nc)) = (k.vaults[r.old], k.vaults[r.new]);
                ensure(r.status == PENDING, "not pending")?;
                ensure(self.expired(r.open, r.height, r.period.max(self.periods[2])), "not expired")?;
                if self.v[r.old].status == 2 {
                    let x = share(self.v[r.old].liqc, r.amount, self.v[r.old].tbr)?;
                    self.v[r.old].liqc -= x;
                    self.unlock(oo, oc, x)?;
                    self.transfer(oo, LIQ, oc, x)?;
                    self.lock(LIQ, oc, x)?;
                    self.liq[oc].col += x;
                }
                self.dec_tbr(k, r.old, r.amount)?;
                self.dec_tbi(k, r.new, r.amount)?;
                sub(&mut self.v[r.old].arc, r.grief, "arc")?;
                self.unlock(oo, NAT, r.grief)?;
                self.transfer(oo, no, NAT, r.grief)?;
                // the collateral that came with the acceptance is released if the vault can spare it
                if self.v[r.new].status != 2 && self.may_withdraw(k, r.new, Some(r.col)) && self.v[r.new].stake[no] >= r.col {
                    self.unlock(no, nc, r.col)?;
                    sub(&mut self.tuvc[nc], r.col, "total")?;
                    self.stake_out(k, r.new, no, r.col)?;
                }
                self.rp[i].status = CANCELLED;
                Ok(())
            }
        }
    }

    /// Invariants every reachable state must satisfy, whatever happened.
    pub fn invariants(&self, k: &Cfg) -> Result<(), (&'static str, String)> {
        let issued: u128 = self.v.iter().map(|v| v.issued).sum::<u128>() + self.liq.iter().map(|l| l.issued).sum::<u128>();
        if issued != self.supply[WRA] { return Err(("supply", format!("wrapped supply {} but issued tokens {}", self.supply[WRA], issued))) }
        for (i, v) in self.v.iter().enumerate() {
            if v.status != 2 && v.tbr > v.issued { return Err(("tbr", format!("vault {}: to-be-redeemed {} > issued {}", i, v.tbr, v.issued))) }
            if v.status != 2 && v.tbrep > v.issued - v.tbr { return Err(("tbrep", format!("vault {}: to-be-replaced {} > {}", i, v.tbrep, v.issued - v.tbr))) }
            if v.tbrep == 0 && v.rc != 0 { return Err(("rc", format!("vault {}: replace collateral {} without an offer", i, v.rc))) }
            let arc: u128 = self.rp.iter().filter(|r| r.old == i && r.status == PENDING).map(|r| r.grief).sum();
            if arc != v.arc { return Err(("arc", format!("vault {}: active replace collateral {}, pending replaces {}", i, v.arc, arc))) }
            let tbr: u128 = self.rd.iter().filter(|r| r.v == i && r.status == PENDING).map(|r| r.amount + r.inc).sum::<u128>() + self.rp.iter().filter(|r| r.old == i && r.status == PENDING).map(|r| r.amount).sum::<u128>();
            if tbr != v.tbr { return Err(("tbr-requests", format!("vault {}: to-be-redeemed {} but pending requests {}", i, v.tbr, tbr))) }
        }
        for c in 0..2 {
            let l = &self.liq[c];
            let mine: Vec<usize> = (0..self.v.len()).filter(|i| k.vaults[*i].1 == c).collect();
            let pend = |i: usize| self.is.iter().filter(|r| r.v == i && r.status == PENDING).map(|r| r.amount + r.fee).sum::<u128>() + self.rp.iter().filter(|r| r.new == i && r.status == PENDING).map(|r| r.amount).sum::<u128>();
            for i in &mine { if self.v[*i].status != 2 && pend(*i) != self.v[*i].tbi { return Err(("tbi-requests", format!("vault {}: to-be-issued {} but pending requests {}", i, self.v[*i].tbi, pend(*i)))) } }
            let gone: u128 = mine.iter().filter(|i| self.v[**i].status == 2).map(|i| pend(*i)).sum();
            if gone != l.tbi { return Err(("liq-tbi", format!("liquidation vault: to-be-issued {} but pending requests {}", l.tbi, gone))) }
            let tbr: u128 = mine.iter().filter(|i| self.v[**i].status == 2).map(|i| self.v[*i].tbr).sum();
            if tbr != l.tbr || l.tbr > l.issued { return Err(("liq-tbr", format!("liquidation vault: to-be-redeemed {} of {} issued, vaults have {}", l.tbr, l.issued, tbr))) }
            let tot: u128 = mine.iter().map(|i| self.v[*i].total + self.v[*i].liqc).sum::<u128>() + l.col;
            if tot != self.tuvc[c] { return Err(("total-collateral", format!("total user collateral is {} but the vaults hold {}", self.tuvc[c], tot))) }
            if self.bal[LIQ][c].1 != l.col { return Err(("liq-backing", format!("liquidation vault collateral {} but {} reserved", l.col, self.bal[LIQ][c].1))) }
        }
        // everything reserved has a purpose, and every purpose is fully reserved
        for a in 0..ACC {
            for c in 0..CUR {
                let mut need = 0u128;
                let mut slack = 0u128;
                for (i, v) in self.v.iter().enumerate() {
                    if k.vaults[i].0 == a && k.vaults[i].1 == c {
                        need += v.total + v.liqc + v.old.values().sum::<u128>();
                        slack += 3 * v.nonce as u128;
                    }
                    if k.vaults[i].0 == a && c == NAT { need += v.rc + v.arc }
                }
                if a == LIQ && c < 2 { need += self.liq[c].col }
                need += self.is.iter().filter(|r| r.who == a && r.gcur == c && r.status == PENDING).map(|r| r.grief).sum::<u128>();
                if c == WRA { need += self.rd.iter().filter(|r| r.who == a && r.status == PENDING).map(|r| r.amount + r.inc + r.fee).sum::<u128>() }
                let have = self.bal[a][c].1;
                if have < need || have > need + slack { return Err(("reserved", format!("account {} currency {}: {} reserved, {} accounted for", a, c, have, need))) }
            }
        }
        for c in 0..2 {
            let s: u128 = (0..self.v.len()).filter(|i| k.vaults[*i].1 == c).map(|i| self.v[i].rstake).sum();
            if self.cap[c] != self.c2w(c, s) { return Err(("capacity", format!("capacity of currency {} is {}, vaults earn with {}", c, self.cap[c], s))) }
        }
        for (i, v) in self.v.iter().enumerate() {
            let want = if v.exists && v.status == 0 { divf(v.total, self.thr(k, i)) } else { 0 };
            if v.rstake != want { return Err(("reward-stake", format!("vault {}: reward stake {} instead of {}", i, v.rstake, want))) }
        }
        Ok(())
    }
    /// the same state with absolute times replaced by what still matters of them
    pub fn normalised(&self) -> Obs {
        let mut s = self.clone();
        let cut = |o: u64, p: u64| (s.now - o).min(p + 2);
        let hut = |h: u32, p: u64| (s.height - h).min((p / 5 + 3) as u32) as u32;
        let m = 40;
        s.is = s.is.iter().map(|r| if r.status == PENDING { IssueR { open: cut(r.open, m), height: hut(r.height, m), ..r.clone() } } else { IssueR { open: 0, height: 0, ..r.clone() } }).collect();
        s.rd = s.rd.iter().map(|r| if r.status == PENDING { RedeemR { open: cut(r.open, m), height: hut(r.height, m), ..r.clone() } } else { RedeemR { open: 0, height: 0, ..r.clone() } }).collect();
        s.rp = s.rp.iter().map(|r| if r.status == PENDING { ReplaceR { open: cut(r.open, m), height: hut(r.height, m), ..r.clone() } } else { ReplaceR { open: 0, height: 0, ..r.clone() } }).collect();
        for v in s.v.iter_mut() { v.banned = v.banned.map(|b| (b + 1).saturating_sub(s.now)) }
        s.now = 0;
        s.height = 0;
        s
    }
}
