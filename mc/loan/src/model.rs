//! An exact reference ledger of the lending markets. Every amount is an integer rounded as the statements of L01 to L04 say; the
//! borrow index and the borrow rate are computed here to 40 digits and the ones the pallet recorded are adopted when they differ by
//! no more than the rounding of 18 digits.
use crate::soc::{MAX_RATE, MIN_RATE};
use num_bigint::BigUint;
use num_traits::ToPrimitive;

pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const PPM: u128 = 1_000_000;
pub const YEAR: u64 = 365 * 24 * 60 * 60;
/// users 0 to 2, the incentive reserve, the pool and the treasury
pub const INC: usize = 3;
pub const POOL: usize = 4;
pub const TREASURY: usize = 5;
pub const ACCOUNTS: usize = 6;
pub const MARKETS: usize = 3;
pub fn b(x: u128) -> BigUint { BigUint::from(x) }
/// floor or ceiling of a·n/d
pub fn mul(a: u128, n: u128, d: u128, up: bool) -> Option<u128> {
    if d == 0 { return None }
    match a.checked_mul(n) { Some(p) => Some(p / d + (up && p % d != 0) as u128), None => { let p = b(a) * b(n); let q = &p / b(d); (if up && &q * b(d) != p { q + 1u32 } else { q }).to_u128() } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Curve { Jump { base: u128, jump: u128, full: u128, at: u128 }, Power { base: u128 } }
impl Curve {
    /// a year's rate at this utilisation, and how far 18 digit arithmetic may be off
    pub fn rate(&self, util: u128) -> Option<(u128, u128)> {
        Some(match *self {
            Curve::Jump { base, jump, full, at } => if util <= at { (base + mul(jump - base, util, at, false)?, 1 + PPM / at) } else { (jump + mul(full - jump, util - at, PPM - at, false)?, 1 + PPM / (PPM - at)) },
            Curve::Power { base } => (base + (b(util).pow(9) * b(ONE) / b(PPM).pow(9)).to_u128()?, 32),
        })
    }
    /// a rate is defined at every utilisation, rises with it and stays within the limits
    pub fn valid(&self) -> bool { match *self { Curve::Jump { base, jump, full, at } => base <= ONE / 10 && jump <= ONE && full <= 5 * ONE && base <= jump && jump <= full && at > 0, Curve::Power { base } => base <= ONE / 10 } }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mk {
    pub active: bool, pub cf: u128, pub lt: u128, pub rf: u128, pub close: u128, pub inc: u128, pub incres: u128, pub scap: u128, pub bcap: u128, pub curve: Curve,
    pub last: u64, pub borrows: u128, pub reserves: u128, pub index: u128, pub supply: u128, pub price: Option<(u128, u128)>,
    /// reward index, block of its last update, reward per block of suppliers and of borrowers
    pub s: (u128, u64, u128), pub b: (u128, u64, u128),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acc { pub und: [u128; MARKETS], pub free: [u128; MARKETS], pub res: [u128; MARKETS], pub dep: [u128; MARKETS], pub pr: [u128; MARKETS], pub pi: [u128; MARKETS], pub si: [u128; MARKETS], pub bi: [u128; MARKETS], pub acc: u128, pub native: u128 }
#[derive(Clone, Debug, PartialEq)]
pub struct Model { pub now: u64, pub blk: u64, pub mk: [Mk; MARKETS], pub ac: Vec<Acc>, pub pot: u128, pub min: u128 }
/// what the pallet recorded: borrow index and borrow rate of each market
pub type Seen = [(u128, u128); MARKETS];
/// index·(1 + rate/year)^dt and the allowed deviation
pub fn grown(index: u128, rate: u128, dt: u64) -> (u128, u128) {
    let unit = BigUint::from(10u32).pow(40);
    let mut base = &unit + b(rate / YEAR as u128) * BigUint::from(10u32).pow(22);
    let mut r = unit.clone();
    let mut e = dt;
    while e > 0 { if e & 1 == 1 { r = r * &base / &unit } base = &base * &base / &unit; e >>= 1 }
    let v = b(index) * r / unit;
    let tol = (&v * b(4 * dt as u128 + 8) / b(ONE)).to_u128().unwrap_or(u128::MAX) + 4;
    (v.to_u128().unwrap_or(u128::MAX), tol)
}
impl Model {
    pub fn cash(&self, m: usize) -> u128 { self.ac[POOL].und[m] }
    pub fn lend(&self, u: usize, m: usize) -> u128 { self.ac[u].free[m] + self.ac[u].res[m] }
    pub fn raw_rate(&self, m: usize) -> Option<u128> {
        if self.mk[m].supply == 0 { return Some(self.min) }
        mul((self.cash(m) + self.mk[m].borrows).checked_sub(self.mk[m].reserves)?, ONE, self.mk[m].supply, false)
    }
    pub fn rate(&self, m: usize) -> Option<u128> { self.raw_rate(m).filter(|r| self.mk[m].supply == 0 || *r >= self.min && *r < MAX_RATE) }
    pub fn util(&self, m: usize) -> Option<u128> {
        let k = &self.mk[m];
        if k.borrows == 0 { return Some(0) }
        let total = (self.cash(m) + k.borrows).checked_sub(k.reserves)?;
        if total <= k.borrows { return Some(PPM) }
        mul(k.borrows, PPM, total, false)
    }
    /// interest since the last accrual; Err: the recorded index or rate is not the rate model's
    pub fn accrue(&mut self, m: usize, seen: &Seen) -> Result<Option<()>, String> {
        if self.mk[m].last == 0 { self.mk[m].last = self.now; return Ok(Some(())) }
        if self.now <= self.mk[m].last { return Ok(Some(())) }
        let Some(util) = self.util(m) else { return Ok(None) };
        let Some((mut rate, tol)) = self.mk[m].curve.rate(util) else { return Ok(None) };
        let changed = seen[m].0 != self.mk[m].index;
        if changed {
            if seen[m].1.abs_diff(rate) > tol { return Err(format!("market {}: recorded borrow rate {}, expected {} at utilisation {} ppm", m, seen[m].1, rate, util)) }
            rate = seen[m].1;
        }
        let (mut index, tol) = grown(self.mk[m].index, rate, self.now - self.mk[m].last);
        if changed {
            if seen[m].0.abs_diff(index) > tol { return Err(format!("market {}: recorded borrow index {}, expected {} from {} after {} s at {}", m, seen[m].0, index, self.mk[m].index, self.now - self.mk[m].last, rate)) }
            index = seen[m].0;
        }
        Ok((|| {
            let k = &mut self.mk[m];
            let ratio = mul(index, ONE, k.index, false)?;
            let new = mul(k.borrows, ratio, ONE, false)?;
            k.reserves += mul(new - k.borrows, k.rf, PPM, false)?;
            k.borrows = new;
            k.index = index;
            k.last = self.now;
            self.rate(m).map(|_| ())
        })())
    }
    pub fn debt(&self, u: usize, m: usize) -> Option<u128> {
        let a = &self.ac[u];
        if a.pr[m] == 0 || a.pi[m] == 0 { return Some(0) }
        mul(a.pr[m], mul(self.mk[m].index, ONE, a.pi[m], false)?, ONE, true)
    }
    pub fn value(&self, x: u128, m: usize) -> Option<u128> { let (n, d) = self.mk[m].price?; mul(x, n, d, false) }
    pub fn mv(&mut self, m: usize, from: usize, to: usize, x: u128) -> Option<()> { self.ac[from].und[m] = self.ac[from].und[m].checked_sub(x)?; self.ac[to].und[m] += x; Some(()) }
    pub fn borrowed(&self, u: usize) -> Option<u128> { let mut v = 0; for m in 0..MARKETS { if self.mk[m].active { let d = self.debt(u, m)?; if d > 0 { v += self.value(d, m)? } } } Some(v) }
    // rewards
    pub fn upd_s(&mut self, m: usize) { let blk = self.blk; let k = &mut self.mk[m]; let d = blk - k.s.1; if d > 0 { if k.s.2 > 0 && k.supply > 0 { k.s.0 += d as u128 * k.s.2 * 1_000_000_000_000 / k.supply } k.s.1 = blk } }
    pub fn dist_s(&mut self, u: usize, m: usize) { let d = self.mk[m].s.0 - self.ac[u].si[m]; self.ac[u].si[m] = self.mk[m].s.0; let l = self.lend(u, m); self.ac[u].acc += mul(l, d, 1_000_000_000_000, false).unwrap() }
    pub fn upd_b(&mut self, m: usize) { let blk = self.blk; let k = &mut self.mk[m]; let d = blk - k.b.1; if d > 0 { if k.b.2 > 0 { let t = mul(k.borrows, ONE, k.index, false).unwrap(); if t > 0 { k.b.0 += d as u128 * k.b.2 * 1_000_000_000_000 / t } } k.b.1 = blk } }
    pub fn dist_b(&mut self, u: usize, m: usize) { let d = self.mk[m].b.0 - self.ac[u].bi[m]; self.ac[u].bi[m] = self.mk[m].b.0; let s = mul(self.debt(u, m).unwrap(), ONE, self.mk[m].index, false).unwrap(); self.ac[u].acc += mul(s, d, 1_000_000_000_000, false).unwrap() }
    pub fn collect(&mut self, u: usize, m: usize) { self.upd_s(m); self.dist_s(u, m); self.upd_b(m); self.dist_b(u, m) }
    pub fn pay(&mut self, u: usize) -> Option<()> { let x = self.ac[u].acc; self.pot = self.pot.checked_sub(x)?; self.ac[u].native += x; self.ac[u].acc = 0; Some(()) }
    pub fn pending(&self, u: usize) -> u128 { let mut n = self.clone(); for m in 0..MARKETS { n.collect(u, m) } n.ac[u].acc }
    pub fn default_market(price: Option<(u128, u128)>) -> Mk {
        Mk { active: true, cf: 500_000, lt: 600_000, rf: 150_000, close: 500_000, inc: ONE + ONE / 10, incres: 30_000, scap: 1_000_000_000_000, bcap: 1_000_000_000_000, curve: Curve::Jump { base: ONE / 50, jump: ONE / 10, full: ONE * 32 / 100, at: 800_000 }, last: 0, borrows: 0, reserves: 0, index: ONE, supply: 0, price, s: (0, 0, 0), b: (0, 0, 0) }
    }
    pub fn new() -> Model { let mut third = Self::default_market(Some((1, 1))); third.active = false; Model { now: 0, blk: 1, mk: [Self::default_market(Some((3, 2))), Self::default_market(Some((1, 1))), third], ac: vec![Acc::default(); ACCOUNTS], pot: 0, min: MIN_RATE } }
}
/// the parts of an operation that touch several markets
pub struct Run<'a> { pub n: Model, pub seen: &'a Seen, pub err: Option<String> }
impl<'a> Run<'a> {
    pub fn accrue(&mut self, m: usize) -> Option<()> { match self.n.accrue(m, self.seen) { Ok(r) => r, Err(e) => { self.err.get_or_insert(e); None } } }
    pub fn active(&self, m: usize) -> Option<()> { self.n.mk[m].active.then_some(()) }
    pub fn to_und(&mut self, t: u128, m: usize) -> Option<u128> { self.active(m)?; self.accrue(m)?; mul(t, self.n.rate(m)?, ONE, false) }
    pub fn to_lend(&mut self, x: u128, m: usize) -> Option<u128> { self.active(m)?; self.accrue(m)?; mul(x, ONE, self.n.rate(m)?, false) }
    /// lend tokens that are worth at least x
    pub fn to_lend_up(&mut self, x: u128, m: usize) -> Option<u128> { self.active(m)?; self.accrue(m)?; mul(x, ONE, self.n.rate(m)?, true) }
    fn weighted(&mut self, t: u128, m: usize, factor: u128) -> Option<u128> { let u = self.to_und(t, m)?; let w = mul(u, factor, PPM, true)?; self.n.value(w, m) }
    pub fn collateral(&mut self, u: usize, threshold: bool) -> Option<u128> {
        let mut v = 0;
        for m in 0..MARKETS { if self.n.mk[m].active && self.n.ac[u].dep[m] > 0 { let f = if threshold { self.n.mk[m].lt } else { self.n.mk[m].cf }; v += self.weighted(self.n.ac[u].dep[m], m, f)? } }
        Some(v)
    }
    /// (surplus, shortfall) of the account
    pub fn liquidity(&mut self, u: usize, threshold: bool) -> Option<(u128, u128)> { let c = self.collateral(u, threshold)?; let d = self.n.borrowed(u)?; Some((c.saturating_sub(d), d.saturating_sub(c))) }
    pub fn deposit(&mut self, u: usize, m: usize, t: u128) -> Option<()> { self.active(m)?; let a = &mut self.n.ac[u]; a.free[m] = a.free[m].checked_sub(t)?; a.res[m] += t; a.dep[m] += t; Some(()) }
    pub fn receive(&mut self, u: usize, m: usize, t: u128) -> Option<()> { self.n.ac[u].free[m] += t; if self.n.ac[u].dep[m] > 0 { self.deposit(u, m, t)? } Some(()) }
    pub fn withdraw(&mut self, u: usize, m: usize, t: u128) -> Option<()> {
        self.active(m)?;
        let c = self.collateral(u, false)?;
        let part = self.weighted(t, m, self.n.mk[m].cf)?;
        if c < self.n.borrowed(u)? + part { return None }
        self.unlock(u, m, t)
    }
    pub fn unlock(&mut self, u: usize, m: usize, t: u128) -> Option<()> { let a = &mut self.n.ac[u]; a.res[m] = a.res[m].checked_sub(t)?; a.dep[m] = a.dep[m].checked_sub(t)?; a.free[m] += t; Some(()) }
    pub fn transfer(&mut self, from: usize, to: usize, m: usize, t: u128) -> Option<()> {
        if t == 0 || from == to { return if t <= self.n.ac[from].free[m] { Some(()) } else { None } }
        self.n.upd_s(m); self.n.dist_s(from, m); self.n.dist_s(to, m);
        self.n.ac[from].free[m] = self.n.ac[from].free[m].checked_sub(t)?;
        self.receive(to, m, t)
    }
    pub fn redeem(&mut self, u: usize, m: usize, x: u128, t: u128) -> Option<()> {
        if self.n.ac[u].dep[m] > 0 { self.withdraw(u, m, t)? }
        self.active(m)?;
        self.accrue(m)?;
        if t == 0 || t > self.n.lend(u, m) { return None }
        let worth = self.to_und(t, m)?;
        if worth > self.n.cash(m).checked_sub(self.n.mk[m].reserves)? || t > self.n.ac[u].free[m] { return None }
        self.n.upd_s(m); self.n.dist_s(u, m);
        self.n.ac[u].free[m] -= t;
        self.n.mk[m].supply -= t;
        self.n.mv(m, POOL, u, x)
    }
    fn set_debt(&mut self, u: usize, m: usize, d: u128) { self.n.ac[u].pr[m] = d; self.n.ac[u].pi[m] = self.n.mk[m].index }
    pub fn borrow(&mut self, u: usize, m: usize, x: u128) -> Option<()> {
        self.active(m)?;
        self.accrue(m)?;
        if self.n.mk[m].borrows + x > self.n.mk[m].bcap || self.n.cash(m).checked_sub(self.n.mk[m].reserves)? < x { return None }
        let v = self.n.value(x, m)?;
        if self.liquidity(u, false)?.0 < v { return None }
        self.n.upd_b(m); self.n.dist_b(u, m);
        let d = self.n.debt(u, m)? + x;
        self.set_debt(u, m, d);
        self.n.mk[m].borrows += x;
        self.n.mv(m, POOL, u, x)?;
        if self.liquidity(u, false)?.1 > 0 { return None }
        Some(())
    }
    pub fn repay(&mut self, u: usize, m: usize, x: u128) -> Option<()> {
        self.active(m)?;
        self.accrue(m)?;
        let d = self.n.debt(u, m)?;
        if x > d { return None }
        self.n.upd_b(m); self.n.dist_b(u, m);
        self.n.mv(m, u, POOL, x)?;
        self.set_debt(u, m, d - x);
        self.n.mk[m].borrows = self.n.mk[m].borrows.saturating_sub(x);
        Some(())
    }
    pub fn mint(&mut self, u: usize, m: usize, x: u128) -> Option<()> {
        self.active(m)?;
        if self.n.cash(m) + x > self.n.mk[m].scap { return None }
        let t = self.to_lend(x, m)?;
        self.n.upd_s(m); self.n.dist_s(u, m);
        if t == 0 || x == 0 { return None }
        self.n.mv(m, u, POOL, x)?;
        self.n.mk[m].supply += t;
        self.receive(u, m, t)
    }
    pub fn liquidate(&mut self, l: usize, u: usize, m: usize, x: u128, c: usize) -> Option<()> {
        self.accrue(m)?; self.accrue(c)?;
        if x == 0 || l == u { return None }
        self.active(m)?; self.active(c)?;
        if self.liquidity(u, true)?.1 == 0 { return None }
        let k = self.n.mk[m].clone();
        let d = self.n.debt(u, m)?;
        if mul(self.n.value(d, m)?, k.close, PPM, true)? < self.n.value(x, m)? { return None }
        if self.n.ac[u].dep[c] == 0 { return None }
        let owned = self.to_und(self.n.ac[u].dep[c], c)?;
        let seize = mul(self.n.value(x, m)?, k.inc, ONE, false)?;
        if self.n.value(owned, c)? < seize { return None }
        let (n, den) = self.n.mk[c].price?;
        let und = mul(seize, den, n, false)?;
        self.n.upd_b(m); self.n.dist_b(u, m);
        self.n.mv(m, l, POOL, x)?;
        if x > d { return None }
        self.set_debt(u, m, d - x);
        self.n.mk[m].borrows = self.n.mk[m].borrows.saturating_sub(x);
        let t = self.to_lend(und, c)?;
        self.n.upd_s(c); self.n.dist_s(l, c); self.n.dist_s(u, c); self.n.dist_s(INC, c);
        self.unlock(u, c, t)?;
        let kept = mul(mul(t, ONE, k.inc, false)?, k.incres, PPM, false)?;
        self.transfer(u, l, c, t - kept)?;
        self.transfer(u, INC, c, kept)
    }
}
