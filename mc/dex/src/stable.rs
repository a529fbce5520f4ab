//! X02: every history of deposits, withdrawals, swaps, fee, amplification and time changes over a stable pool of three currencies
//! and a meta pool over its LP token. The invariant D and the balance y that keeps it are computed exactly (bisection over big
//! integers on the StableSwap polynomial); what the pallet computes by Newton iteration must lie in the interval that follows
//! from an error of a few units in D. Recorded balances, LP supply and all accounts must match an exact ledger.
use crate::soc::System;
use crate::soc::*;
use dex_stable::traits::StableAmmApi;
use kit::{System as Machine, *};
use mcstore::Map;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};

pub type Stb = dex_stable::Pallet<Test>;
type Z = BigInt;
pub const BASE: u32 = 0;
pub const META: u32 = 1;
const FEE: usize = 2;
/// currencies 0..3 of the base pool, 3 of the meta pool, the LP tokens 4 and 5
pub const CUR: [CurrencyId; 6] = [Token(DOT), Token(IBTC), Token(INTR), Token(KSM), CurrencyId::StableLpToken(0), CurrencyId::StableLpToken(1)];
const NAMES: [&str; 6] = ["DOT", "IBTC", "INTR", "KSM", "base LP", "meta LP"];
/// tokens have 18, 12, 8 and 10 decimals, LP tokens 18
pub const MULT: [u128; 6] = [1, 1_000_000, 10_000_000_000, 100_000_000, 1, 1];
pub const DECIMALS: [u32; 6] = [18, 12, 8, 10, 18, 18];
const MEMBERS: [&[usize]; 2] = [&[0, 1, 2], &[3, 4]];
const LP: [usize; 2] = [4, 5];
const E18: u128 = 1_000_000_000_000_000_000;
const FD: u128 = 10_000_000_000;
const DAY: u128 = 86_400;
const CACHE: u64 = 36_000;
pub fn pool_acc(p: u32) -> AccountId { Stb::pool_account_id(&p) }
/// users 1 and 2, the fee receiver, the pools
pub fn accs() -> [AccountId; 5] { [1, 2, 3, pool_acc(0), pool_acc(1)] }
const WHO: [AccountId; 3] = [1, 2, 3];
fn z(x: u128) -> Z { Z::from(x) }

// ---------------------------------------------------------------- exact StableSwap
/// the largest x >= 0 with f(x) <= 0, for f increasing from f(0) <= 0; `guess` speeds it up
fn largest(f: &dyn Fn(&Z) -> Z, guess: f64) -> Z {
    let neg = |x: &Z| !f(x).is_positive();
    let mut lo;
    let mut hi;
    let g = if guess.is_finite() && guess > 0.0 { Z::from(guess as u128) } else { Z::one() };
    let mut step: Z = (&g >> 48) + 1;
    if neg(&g) { lo = g.clone(); hi = &g + &step; while neg(&hi) { lo = hi.clone(); step = &step * 4; hi = &hi + &step; } }
    else { hi = g.clone(); lo = &g - &step; while lo.is_positive() && !neg(&lo) { hi = lo.clone(); step = &step * 4; lo = &lo - &step; } if lo.is_negative() { lo = Z::zero() } }
    while &hi - &lo > Z::one() { let m: Z = (&lo + &hi) >> 1; if neg(&m) { lo = m } else { hi = m } }
    lo
}
fn f64z(x: &Z) -> f64 { x.to_f64().unwrap_or(f64::MAX) }
/// floor of the invariant of the normalized balances x at amplification a (times 100); None when a balance is zero but not all
pub fn invariant(x: &[Z], a: u128) -> Option<Z> {
    let n = x.len() as u32;
    let s: Z = x.iter().sum();
    if s.is_zero() { return Some(Z::zero()) }
    if x.iter().any(|v| !v.is_positive()) { return None }
    let ann = z(a * n as u128);
    let np: Z = x.iter().product::<Z>() * Z::from(n).pow(n);
    let lin: Z = (&ann - 100) * &np;
    let con: Z = &ann * &s * &np;
    let mut d = f64z(&s);
    let (sf, annf) = (d, f64z(&ann) / 100.0);
    for _ in 0..60 { let mut dp = d; for v in x { dp = dp * d / (f64z(v) * n as f64) } d = (annf * sf + dp * n as f64) * d / ((annf - 1.0) * d + (n as f64 + 1.0) * dp); }
    Some(largest(&|d: &Z| Z::from(100) * d.pow(n + 1) + &lin * d - &con, d))
}
/// floor of the balance of coin j that gives invariant d with the others as in x
fn balance_for(x: &[Z], j: usize, a: u128, d: &Z) -> Option<Z> {
    let n = x.len() as u32;
    if d.is_zero() { return Some(Z::zero()) }
    if x.iter().enumerate().any(|(i, v)| i != j && !v.is_positive()) { return None }
    let ann = z(a * n as u128);
    let s: Z = x.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, v)| v).sum();
    let np: Z = x.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, v)| v).product::<Z>() * Z::from(n).pow(n) * &ann;
    let b: Z = &ann * &s + Z::from(100) * d - &ann * d; // ann * (S' + 100 D / ann - D)
    let con: Z = Z::from(100) * d.pow(n + 1) * &ann;
    let (bf, cf, mut y) = (f64z(&b) / f64z(&ann), f64z(d), f64z(d));
    let mut c = cf; for (i, v) in x.iter().enumerate() { if i != j { c = c * cf / (f64z(v) * n as f64) } }
    c = c * cf * 100.0 / (f64z(&ann) * n as f64);
    for _ in 0..80 { y = (y * y + c) / (2.0 * y + bf) }
    // np * (ann y^2 + b y) / ann - con / ann <= 0
    Some(largest(&|y: &Z| &np * (&ann * y * y + &b * y) - &con, y))
}
#[derive(Clone, Debug)]
pub struct Iv { pub lo: Z, pub hi: Z }
fn iv(lo: Z, hi: Z) -> Iv { Iv { lo, hi } }
impl Iv { fn has(&self, x: u128) -> bool { self.lo <= z(x) && z(x) <= self.hi } }
/// tolerance of the pallet's integer iterations, in normalized units
const K: u32 = 2;
fn d_iv(lo: &[Z], hi: &[Z], a: u128) -> Option<Iv> { let d = invariant(lo, a)?; if d.is_zero() && hi.iter().all(|x| x.is_zero()) { return Some(iv(d.clone(), d)) } Some(iv((d - K).max(Z::zero()), invariant(hi, a)? + K)) }
/// the pallet's y for an invariant in d and the other balances in [lo, hi]
fn y_iv(lo: &[Z], hi: &[Z], j: usize, a: u128, d: &Iv) -> Option<Iv> { Some(iv((balance_for(hi, j, a, &d.lo)? - K).max(Z::zero()), balance_for(lo, j, a, &d.hi)? + K)) }

// ---------------------------------------------------------------- model
#[derive(Clone, Debug, PartialEq)]
pub struct Pool { bal: Vec<u128>, fee: u128, admin: u128, a: (u128, u128), t: (u128, u128) }
#[derive(Clone, Debug, PartialEq)]
pub struct Model { led: [[u128; 6]; 5], pools: [Pool; 2], vp: u128, vp_at: u64, now: u64 }
impl Model {
    fn amp(&self, p: usize) -> u128 {
        let q = &self.pools[p];
        let now = self.now as u128;
        if now >= q.t.1 { return q.a.1 }
        let part = |span: u128| span * (now - q.t.0) / (q.t.1 - q.t.0);
        if q.a.1 > q.a.0 { q.a.0 + part(q.a.1 - q.a.0) } else { q.a.0 - part(q.a.0 - q.a.1) }
    }
    fn supply(&self, p: usize) -> u128 { self.led.iter().map(|l| l[LP[p]]).sum() }
    fn fresh(&self) -> bool { self.now <= self.vp_at + CACHE }
    /// the price of the base LP token the meta pool uses now
    fn price(&self, p: usize) -> u128 { if p == 0 { E18 } else if self.fresh() { self.vp } else { Stb::get_virtual_price(BASE) } }
    fn refresh(&mut self, p: usize) { if p == 1 && !self.fresh() { self.vp = Stb::get_virtual_price(BASE); self.vp_at = self.now } }
    fn norm(&self, p: usize, b: &[u128], vp: u128) -> Vec<Z> {
        let mut v: Vec<Z> = b.iter().enumerate().map(|(i, x)| z(*x) * z(MULT[MEMBERS[p][i]])).collect();
        if p == 1 { v[1] = &v[1] * z(vp) / z(E18) }
        v
    }
    fn mv(&mut self, c: usize, from: usize, to: usize, x: u128) -> bool { if self.led[from][c] < x { return false } self.led[from][c] -= x; self.led[to][c] += x; true }
    fn gain(&mut self, who: usize, c: usize, x: u128) { self.led[who][c] += x }
}
#[derive(Clone)]
pub struct St { map: Map, m: Model }
/// simple operations: by account a (index into accs), on pool p, for the benefit of `to`
#[derive(Clone, Debug)]
pub enum Simple {
    Add { u: usize, p: usize, x: Vec<u128>, to: usize },
    Remove { u: usize, p: usize, l: u128, to: usize },
    RemoveOne { u: usize, p: usize, l: u128, i: usize, to: usize },
    RemoveSome { u: usize, p: usize, x: Vec<u128>, to: usize },
    Swap { u: usize, p: usize, i: usize, j: usize, x: u128, to: usize },
}
use Simple::*;
#[derive(Clone, Debug)]
pub enum Op {
    S(Simple),
    FromBase { u: usize, i: usize, j: usize, x: u128, to: usize },
    ToBase { u: usize, i: usize, j: usize, x: u128, to: usize },
    Underlying { u: usize, i: usize, j: usize, x: u128, to: usize },
    AddBoth { u: usize, m: u128, b: Vec<u128>, to: usize },
    RemoveBoth { u: usize, l: u128, to: usize },
    RemoveBothOne { u: usize, l: u128, i: usize, to: usize },
    Rate(usize, u128, u128), Collect(usize), Donate(usize, usize, u128), Time(u64), Ramp(usize, u128, u128), Stop(usize),
}
type Bad = (String, String);
type R<T> = Result<T, Bad>;
fn bad<T>(k: impl Into<String>, m: String) -> R<T> { Err((k.into(), m)) }
fn try_out<T>(f: impl FnOnce() -> Result<T, DispatchError>) -> Result<T, String> { mcstore::begin(); let r = f(); mcstore::rollback(); r.map_err(|e| format!("{:?}", e)) }
fn must_refuse(what: &str, f: impl FnOnce() -> DispatchResult) -> R<()> { if try_out(f).is_ok() { bad(format!("accepted:{}", what), format!("accepted with {}", what)) } else { Ok(()) } }
pub fn observe(m: &Model) -> R<()> {
    for (a, acc) in accs().iter().enumerate() { for c in 0..6 {
        let got = bal(CUR[c], *acc);
        if got != m.led[a][c] { return bad(format!("ledger:{}", if a > 2 { "pool" } else if c > 3 { "lp" } else { "user" }), format!("{} holds {} {}, expected {}", ["user 1", "user 2", "the fee receiver", "the base pool", "the meta pool"][a], got, NAMES[c], m.led[a][c])) }
    } }
    for p in 0..2 {
        let id = p as u32;
        if m.pools[p].bal.is_empty() { continue }
        if issued(CUR[LP[p]]) != m.supply(p) { return bad("lp-issuance", format!("{} {} exist, the accounts hold {}", issued(CUR[LP[p]]), NAMES[LP[p]], m.supply(p))) }
        if Stb::get_currency_balances(id) != m.pools[p].bal { return bad("recorded", format!("pool {} records {:?}, expected {:?}", p, Stb::get_currency_balances(id), m.pools[p].bal)) }
        let members: Vec<CurrencyId> = MEMBERS[p].iter().map(|c| CUR[*c]).collect();
        for k in 0..=members.len() { if Stb::get_currency(id, k as u32) != members.get(k).copied() { return bad("currency-at", format!("currency {} of pool {} is {:?}, expected {:?}", k, p, Stb::get_currency(id, k as u32), members.get(k))) } }
        for c in CUR { let want = members.iter().position(|m| *m == c).map(|i| i as u32); if Stb::get_currency_index(id, c) != want { return bad("currency-index", format!("the index of {:?} in pool {} is {:?}, expected {:?}", c, p, Stb::get_currency_index(id, c), want)) } }
        if Stb::get_lp_currency(id) != Some(CUR[LP[p]]) || Stb::get_number_of_currencies(id) as usize != members.len() { return bad("currencies", format!("pool {}", p)) }
        let admin: Vec<u128> = MEMBERS[p].iter().enumerate().map(|(k, c)| m.led[3 + p][*c] - m.pools[p].bal[k]).collect();
        if Stb::get_admin_balances(id) != admin { return bad("admin-balances", format!("pool {} reports admin fees {:?}, expected {:?}", p, Stb::get_admin_balances(id), admin)) }
        if Stb::get_a_precise_by_id(id) != m.amp(p) || Stb::get_a(id) != m.amp(p) / 100 { return bad("amplification", format!("pool {} is amplified by {} / 100 at {}, the ramp {:?} over {:?} gives {}", p, Stb::get_a_precise_by_id(id), m.now, m.pools[p].a, m.pools[p].t, m.amp(p))) }
        let s = m.supply(p);
        if s > 0 {
            if let Some(d) = { let x = m.norm(p, &m.pools[p].bal, m.price(p)); if sane(&x) { d_iv(&x, &x, m.amp(p)) } else { None } } {
                let w = iv(&d.lo * z(E18) / z(s), &d.hi * z(E18) / z(s));
                if !w.has(Stb::get_virtual_price(id)) { return bad("virtual-price", format!("the virtual price of pool {} with {:?} is {}, exactly it lies in {:?}", p, m.norm(p, &m.pools[p].bal, m.price(p)), Stb::get_virtual_price(id), w)) }
            }
        }
    }
    Ok(())
}
fn u(x: &Z) -> u128 { if x.is_negative() { 0 } else { x.to_u128().unwrap_or(u128::MAX) } }
/// what a call may do: refuse, or deliver an amount in the interval (in the delivered token)
/// the pallet computes with 256 bits: pools that are more lopsided than this may refuse what is possible in principle
fn sane(x: &[Z]) -> bool { let (a, b) = (x.iter().min().unwrap(), x.iter().max().unwrap()); b <= &(a * 10_000) }
struct Expect { must: bool, may: bool, w: Iv }
impl Expect {
    fn no() -> Expect { Expect { must: false, may: false, w: iv(Z::zero(), Z::zero()) } }
    fn judge(&self, op: &Simple, r: &Result<(), String>, got: u128) -> R<()> {
        match r {
            Ok(_) if !self.may => bad(format!("accepted:{}", name(op)), format!("{:?} is accepted and delivers {}", op, got)),
            Ok(_) if !self.w.has(got) => bad(format!("amount:{}", name(op)), format!("{:?} gives {}, exactly it lies in {} ..= {}", op, got, self.w.lo, self.w.hi)),
            Err(e) if self.must => bad(format!("refused:{}", name(op)), format!("{:?} is refused: {}, it should give {} ..= {}", op, e, self.w.lo, self.w.hi)),
            _ => Ok(()),
        }
    }
}
fn name(s: &Simple) -> &'static str { match s { Add { .. } => "add", Remove { .. } => "remove", RemoveOne { .. } => "remove one", RemoveSome { .. } => "remove some", Swap { .. } => "swap" } }
fn within(what: &str, s: &Simple, got: u128, w: &Iv) -> R<()> { if w.has(got) { Ok(()) } else { bad(format!("admin-fee:{}", what), format!("{:?} takes an admin fee of {}, exactly it lies in {} ..= {}", s, got, w.lo, w.hi)) } }
fn fpt(q: &Pool, n: usize) -> Z { z(q.fee) * Z::from(n) / (Z::from(4) * Z::from(n - 1)) }
fn nz(x: Z) -> Z { x.max(Z::zero()) }
/// intervals of the imbalance fees in each coin when the balances become `new` and the invariant goes from d0 to d1
fn fees(q: &Pool, new: &[u128], d0: &Iv, d1: &Iv) -> Vec<Iv> {
    let f = fpt(q, new.len());
    new.iter().enumerate().map(|(i, x)| {
        let ideal = iv(&d1.lo * z(q.bal[i]) / &d0.hi, &d1.hi * z(q.bal[i]) / &d0.lo.clone().max(Z::one()));
        let (a, b) = (z(*x) - &ideal.lo, z(*x) - &ideal.hi);
        let lo = if a.is_negative() != b.is_negative() { Z::zero() } else { a.abs().min(b.abs()) };
        iv(&f * lo / z(FD), &f * a.abs().max(b.abs()) / z(FD))
    }).collect()
}
fn sub(a: &[u128], f: &[Iv]) -> (Vec<u128>, Vec<u128>) { (a.iter().zip(f).map(|(x, w)| u(&(z(*x) - &w.hi))).collect(), a.iter().zip(f).map(|(x, w)| u(&(z(*x) - &w.lo))).collect()) }
fn share(f: &Iv, admin: u128) -> Iv { iv(nz(&f.lo * z(admin) / z(FD)), nz(&f.hi * z(admin) / z(FD))) }

/// execute one simple operation on the real pallet (as the caller of the trait; extrinsics are used for users), check it and update the model
fn simple(m: &mut Model, s: &Simple, api: bool) -> R<Option<u128>> {
    let before = m.clone();
    let (usr, p, to) = match s { Add { u, p, to, .. } | Remove { u, p, to, .. } | RemoveOne { u, p, to, .. } | RemoveSome { u, p, to, .. } | Swap { u, p, to, .. } => (*u, *p, *to) };
    let id = p as u32;
    let (who, tgt) = (accs()[usr], accs()[to]);
    let q = m.pools[p].clone();
    let n = q.bal.len();
    let (a, vp, supply) = (m.amp(p), m.price(p), m.supply(p));
    let x0 = m.norm(p, &q.bal, vp);
    let d0 = d_iv(&x0, &x0, a);
    let own = m.led[usr];
    // one unit of coin i in normalized units, and back
    let back = |i: usize, v: &Z| if p == 1 && i == 1 { v * z(E18) / z(vp) } else { v.clone() };
    let mul = |i: usize| z(MULT[MEMBERS[p][i]]);
    let cid = |i: usize| MEMBERS[p][i];
    // -------- what should happen
    let mut quote: Option<(Option<u128>, u128, &'static str)> = None;
    let mut admin_w: Vec<Iv> = vec![iv(Z::zero(), Z::zero()); n];
    let ex: Expect = match s {
        Swap { i, j, x, .. } => {
            if i == j || *i >= n || *j >= n || own[cid(*i)] < *x { Expect::no() } else { (|| {
                let d = d0.clone()?;
                let mut t = x0.clone();
                t[*i] = &t[*i] + if p == 1 && *i == 1 { z(*x) * z(vp) / z(E18) } else { z(*x) * mul(*i) };
                let y = y_iv(&t, &t, *j, a, &d)?;
                let (lo, hi) = (back(*j, &nz(&x0[*j] - &y.hi - 1)), back(*j, &(&x0[*j] - &y.lo - 1)));
                let net = |v: &Z| (v - v * z(q.fee) / z(FD)) / mul(*j);
                let w = iv(net(&lo), net(&nz(hi.clone())));
                admin_w[*j] = iv(&lo * z(q.fee) / z(FD) * z(q.admin) / z(FD) / mul(*j), nz(hi.clone()) * z(q.fee) / z(FD) * z(q.admin) / z(FD) / mul(*j));
                let must = &x0[*j] - &y.hi - 1 >= Z::zero() && sane(&x0) && sane(&t);
                Some(Expect { must, may: !hi.is_negative(), w })
            })().unwrap_or(Expect::no()) }
        }
        Add { x, .. } => {
            if x.len() != n || (0..n).any(|i| own[cid(i)] < x[i]) || (supply == 0 && x.iter().any(|v| *v == 0)) { Expect::no() } else { (|| {
                let new: Vec<u128> = (0..n).map(|i| q.bal[i] + x[i]).collect();
                let x1 = m.norm(p, &new, vp);
                let d1 = d_iv(&x1, &x1, a)?;
                if supply == 0 { return Some(Expect { must: sane(&x1), may: true, w: d1 }) }
                let d = d0.clone()?;
                let f = fees(&q, &new, &d, &d1);
                for i in 0..n { admin_w[i] = share(&f[i], q.admin); }
                let (l, h) = sub(&new, &f);
                let d2 = d_iv(&m.norm(p, &l, vp), &m.norm(p, &h, vp), a)?;
                let w = iv(nz(z(supply) * (&d2.lo - &d.hi)) / &d.hi, z(supply) * (&d2.hi - &d.lo) / d.lo.clone().max(Z::one()));
                Some(Expect { must: d1.lo > d.hi && d2.lo >= d.hi && sane(&x0) && sane(&x1), may: d1.hi > d.lo && d2.hi >= d.lo, w })
            })().unwrap_or(Expect::no()) }
        }
        Remove { l, .. } => if *l == 0 || own[LP[p]] < *l { Expect::no() } else { Expect { must: true, may: true, w: iv(z(*l), z(*l)) } },
        RemoveOne { l, i, .. } => {
            if *l == 0 || own[LP[p]] < *l || *i >= n { Expect::no() } else { (|| {
                let d = d0.clone()?;
                let cut = |d: &Z| d - z(*l) * d / z(supply);
                let d1 = iv(cut(&d.lo), cut(&d.hi));
                let y1 = y_iv(&x0, &x0, *i, a, &d1)?;
                let f = fpt(&q, n);
                let fee_of = |dx: Z| &f * nz(dx) / z(FD);
                let mut lo = x0.clone();
                let mut hi = x0.clone();
                for k in 0..n {
                    let (r_lo, r_hi) = (&x0[k] * &d1.lo / &d.hi, &x0[k] * &d1.hi / d.lo.clone().max(Z::one()));
                    let dx = if k == *i { iv(&r_lo - &y1.hi, &r_hi - &y1.lo) } else { iv(&x0[k] - &r_hi, &x0[k] - &r_lo) };
                    lo[k] = &x0[k] - fee_of(dx.hi);
                    hi[k] = &x0[k] - fee_of(dx.lo);
                }
                let y2 = y_iv(&lo, &hi, *i, a, &d1)?;
                let dn = iv(&lo[*i] - &y2.hi, &hi[*i] - &y2.lo);
                let w = iv(nz(back(*i, &dn.lo) - 1) / mul(*i), nz(back(*i, &dn.hi) - 1) / mul(*i));
                let gross = iv(nz(back(*i, &x0[*i]) - back(*i, &y1.hi)) / mul(*i), nz(back(*i, &x0[*i]) - back(*i, &y1.lo)) / mul(*i));
                admin_w[*i] = share(&iv(nz(&gross.lo - &w.hi), &gross.hi - &w.lo + 1), q.admin);
                Some(Expect { must: dn.lo > z(2) * K && z(*l) * Z::from(4) < z(supply) * Z::from(3) && sane(&x0), may: dn.hi.is_positive(), w })
            })().unwrap_or(Expect::no()) }
        }
        RemoveSome { x, .. } => {
            if x.len() != n || supply == 0 || (0..n).any(|i| q.bal[i] < x[i]) { Expect::no() } else { (|| {
                let new: Vec<u128> = (0..n).map(|i| q.bal[i] - x[i]).collect();
                let x1 = m.norm(p, &new, vp);
                let d = d0.clone()?;
                let d1 = d_iv(&x1, &x1, a)?;
                let f = fees(&q, &new, &d, &d1);
                for i in 0..n { admin_w[i] = share(&f[i], q.admin); }
                let (l, h) = sub(&new, &f);
                let d2 = d_iv(&m.norm(p, &l, vp), &m.norm(p, &h, vp), a)?;
                let w = iv(nz(z(supply) * (&d.lo - &d2.hi)) / &d.hi + 1, z(supply) * (&d.hi - &d2.lo) / d.lo.clone().max(Z::one()) + 1);
                let have = z(own[LP[p]]);
                Some(Expect { must: w.hi <= have && w.lo > Z::one() && sane(&x0) && sane(&x1), may: w.lo <= have && w.hi > Z::one(), w })
            })().unwrap_or(Expect::no()) }
        }
    };
    // -------- quotes, before
    match s {
        Swap { i, j, x, .. } => quote = Some((Stb::stable_amm_calculate_swap_amount(id, *i, *j, *x), if p == 0 { 2 } else { 0 }, "swap")),
        RemoveOne { l, i, .. } if *l > 0 && supply > 0 => quote = Some((Stb::stable_amm_calculate_remove_liquidity_one_currency(id, *l, *i as u32), 0, "remove one")),
        _ => (),
    }
    let estimate = match s { Add { x, .. } if x.len() == n && supply > 0 => Stb::stable_amm_calculate_currency_amount(id, x, true).ok(), RemoveSome { x, .. } if x.len() == n && supply > 0 => Stb::stable_amm_calculate_currency_amount(id, x, false).ok(), _ => None };
    let shares = match s { Remove { l, .. } => Stb::stable_amm_calculate_remove_liquidity(id, *l), _ => None };
    // -------- do it; `lim` is the minimum (maximum for burns), None for no limit
    let exec = |lim: Option<Vec<u128>>, dl: u64| -> DispatchResult {
        let l0 = lim.as_ref().map(|v| v[0]);
        let o = signed(who);
        match s.clone() {
            Add { x, .. } => if api { <Stb as StableAmmApi<_, _, _, _>>::add_liquidity(&who, id, &x, l0.unwrap_or(0), &tgt).map(|_| ()) } else { Stb::add_liquidity(o, id, x, l0.unwrap_or(0), tgt, dl) },
            Swap { i, j, x, .. } => if api { <Stb as StableAmmApi<_, _, _, _>>::swap(&who, id, i as u32, j as u32, x, l0.unwrap_or(0), &tgt).map(|_| ()) } else { Stb::swap(o, id, i as u32, j as u32, x, l0.unwrap_or(0), tgt, dl) },
            Remove { l, .. } => if api { <Stb as StableAmmApi<_, _, _, _>>::remove_liquidity(&who, id, l, &lim.unwrap_or(vec![0; n]), &tgt) } else { Stb::remove_liquidity(o, id, l, lim.unwrap_or(vec![0; n]), tgt, dl) },
            RemoveOne { l, i, .. } => if api { <Stb as StableAmmApi<_, _, _, _>>::remove_liquidity_one_currency(&who, id, l, i as u32, l0.unwrap_or(0), &tgt).map(|_| ()) } else { Stb::remove_liquidity_one_currency(o, id, l, i as u32, l0.unwrap_or(0), tgt, dl) },
            RemoveSome { x, .. } => if api { <Stb as StableAmmApi<_, _, _, _>>::remove_liquidity_imbalance(&who, id, &x, l0.unwrap_or(u128::MAX), &tgt) } else { Stb::remove_liquidity_imbalance(o, id, x, l0.unwrap_or(u128::MAX), tgt, dl) },
        }
    };
    if !api { must_refuse("an expired deadline", || exec(None, 5))?; }
    // a first run finds what is delivered, a second one states it as the limit
    let measure = || match s {
        Swap { j, .. } => bal(CUR[cid((*j).min(n - 1))], tgt), RemoveOne { i, .. } => bal(CUR[cid((*i).min(n - 1))], tgt),
        Add { .. } => bal(CUR[LP[p]], tgt), Remove { .. } | RemoveSome { .. } => bal(CUR[LP[p]], who),
    };
    let start = measure();
    mcstore::begin();
    let r = exec(None, 6).map_err(|e| format!("{:?}", e));
    let end = measure();
    mcstore::rollback();
    let burns = matches!(s, Remove { .. } | RemoveSome { .. });
    let same = matches!((s, usr == to), (Swap { i, j, .. }, true) if i == j);
    let got = if same { 0 } else if burns { start.saturating_sub(end) } else { end.saturating_sub(start) };
    ex.judge(s, &r, got)?;
    if r.is_err() {
        let again = tx(|| exec(None, 6));
        if again.is_ok() { return bad("unstable", format!("{:?} is refused at first, then accepted", s)) }
        return Ok(None)
    }
    match s {
        Remove { l, .. } => {
            let pay: Vec<u128> = q.bal.iter().map(|b| u(&(z(*b) * z(*l) / z(supply)))).collect();
            for i in 0..n { let mut v = pay.clone(); v[i] += 1; must_refuse("a minimum that is missed", || exec(Some(v), 6))?; }
            if shares != Some(pay.clone()) { return bad("quote:remove", format!("{:?} is quoted {:?}, its share is {:?}", s, shares, pay)) }
            let r = tx(|| exec(Some(pay.clone()), 6));
            if let Err(e) = r { return bad("refused:remove", format!("{:?} with its exact share {:?} as minimum: {}", s, pay, e)) }
            for i in 0..n { m.mv(cid(i), 3 + p, to, pay[i]); m.pools[p].bal[i] -= pay[i]; }
            m.led[usr][LP[p]] -= l;
        }
        _ => {
            if burns { must_refuse("a maximum that is exceeded", || exec(Some(vec![got - 1]), 6))? } else { must_refuse("a minimum that is missed", || exec(Some(vec![got + 1]), 6))? }
            let r = tx(|| exec(Some(vec![got]), 6));
            if let Err(e) = r { return bad(format!("refused:{}", name(s)), format!("{:?} delivers {} but is refused with this limit: {}", s, got, e)) }
            match s {
                Swap { i, j, x, .. } => { m.mv(cid(*i), usr, 3 + p, *x); m.mv(cid(*j), 3 + p, to, got); m.pools[p].bal[*i] += x; m.pools[p].bal[*j] -= got; }
                Add { x, .. } => { for i in 0..n { m.mv(cid(i), usr, 3 + p, x[i]); m.pools[p].bal[i] += x[i]; } m.gain(to, LP[p], got); }
                RemoveOne { l, i, .. } => { m.mv(cid(*i), 3 + p, to, got); m.pools[p].bal[*i] -= got; m.led[usr][LP[p]] -= l; }
                RemoveSome { x, .. } => { for i in 0..n { m.mv(cid(i), 3 + p, to, x[i]); m.pools[p].bal[i] -= x[i]; } m.led[usr][LP[p]] -= got; }
                _ => (),
            }
            m.refresh(p);
            // the admin fee: the rest that is missing in the recorded balances
            let now = Stb::get_currency_balances(id);
            for k in 0..n {
                let taken = m.pools[p].bal[k].checked_sub(now[k]).ok_or(("recorded".to_string(), format!("{:?} records {} of {}, at most {} can be there", s, now[k], NAMES[cid(k)], m.pools[p].bal[k])))?;
                within(name(s), s, taken, &admin_w[k])?;
                m.pools[p].bal[k] = now[k];
            }
        }
    }
    if let Some((qt, slack, what)) = quote { match qt { Some(v) if v <= got && v + slack >= got => (), _ if what == "swap" && got <= slack => (), v => return bad(format!("quote:{}:{}", what, if p == 0 { "base" } else { "meta" }), format!("{:?} is quoted {:?} and delivers {}", s, v, got)) } }
    if let Some(e) = estimate {
        // an estimate without fees: never worse for the pool than no fee at all
        let tol = supply / 1_000_000_000_000 + 10;
        if matches!(s, Add { .. }) && got > e + tol || matches!(s, RemoveSome { .. }) && got + tol < e { return bad("quote:estimate", format!("{:?} is estimated at {} without fees, with fees it is {}", s, e, got)) }
        if q.fee == 0 && (got > e + tol || e > got + tol) { return bad("quote:estimate", format!("{:?} is estimated at {}, and without any fee it is {}", s, e, got)) }
    }
    // -------- the invariant per LP token does not fall
    let (s1, b1) = (m.supply(p), m.norm(p, &m.pools[p].bal, vp));
    if supply > 0 && s1 > 0 { if let (Some(da), Some(db)) = (invariant(&x0, a), invariant(&b1, a)) {
        if db * z(supply) < &da * z(s1) && invariant(&b1.iter().map(|x| x + 2 * K).collect::<Vec<_>>(), a).map_or(false, |d| (d + 2 * K) * z(supply) < &da * z(s1)) { return bad(format!("invariant:{}", name(s)), format!("{:?} takes D per LP token from {}/{} to {:?}/{}", s, da, supply, invariant(&b1, a), s1)) }
    } }
    let _ = before;
    observe(m)?;
    Ok(Some(got))
}

// ---------------------------------------------------------------- histories
pub struct Pools { start: Vec<(String, St)>, n: u128, few: bool }
fn coins(n: u128, c: usize, k: u128) -> u128 { n / MULT[c] * k }
fn set_time(secs: u64) { Timestamp::set_timestamp(secs * 1000) }
pub fn create(c: &mut Ctx, n: u128, a: [u128; 2], fee: u128, admin: u128) -> Option<St> {
    let mut t = vec![];
    let mut led = [[0; 6]; 5];
    for i in 0..2 { for k in 0..4 { let x = coins(n, k, 1_000_000); t.push((WHO[i], CUR[k], x)); led[i][k] = x; } }
    let mut m = Model { led, pools: [Pool { bal: vec![], fee, admin, a: (a[0] * 100, a[0] * 100), t: (0, 0) }, Pool { bal: vec![], fee, admin, a: (a[1] * 100, a[1] * 100), t: (0, 0) }], vp: 0, vp_at: 0, now: 1_700_000_000 };
    let (r, map) = mcstore::isolated(genesis(&t), || -> R<()> {
        System::set_block_number(5);
        set_time(m.now);
        let mk = |p: usize, o: RuntimeOrigin, a: u128, fee: u128, admin: u128, dec: Option<u32>| {
            let ids: Vec<CurrencyId> = MEMBERS[p].iter().map(|c| CUR[*c]).collect();
            let mut d: Vec<u32> = MEMBERS[p].iter().map(|c| DECIMALS[*c]).collect();
            if let Some(x) = dec { d[0] = x }
            if p == 0 { Stb::create_base_pool(o, ids, d, a, fee, admin, 3, b"base".to_vec()) } else { Stb::create_meta_pool(o, ids, d, a, fee, admin, 3, b"meta".to_vec()) }
        };
        for p in 0..2 {
            if p == 1 { must_refuse("a meta pool over a base pool without value", || mk(1, root(), a[1], fee, admin, None))?; simple(&mut m, &Add { u: 0, p: 0, x: (0..3).map(|k| coins(n, k, 1000)).collect(), to: 0 }, false)?; }
            must_refuse("a user as origin", || mk(p, signed(1), a[p], fee, admin, None))?;
            must_refuse("an amplification of zero", || mk(p, root(), 0, fee, admin, None))?;
            must_refuse("an amplification of a million", || mk(p, root(), 1_000_000, fee, admin, None))?;
            must_refuse("a swap fee above 1%", || mk(p, root(), a[p], FD / 100 + 1, admin, None))?;
            must_refuse("an admin fee above 100%", || mk(p, root(), a[p], fee, FD + 1, None))?;
            must_refuse("more than 18 decimals", || mk(p, root(), a[p], fee, admin, Some(19)))?;
            if let Err(e) = tx(|| mk(p, root(), a[p], fee, admin, None)) { return bad("refused:create", format!("creating pool {}: {}", p, e)) }
            m.pools[p].bal = vec![0; MEMBERS[p].len()];
            if p == 1 { m.vp = Stb::get_virtual_price(BASE); m.vp_at = m.now; }
            observe(&m)?;
        }
        Ok(())
    });
    match r { Ok(()) => Some(St { map, m }), Err((k, w)) => { c.fail(k, w.clone(), vec![w]); None } }
}
/// a composite call must do exactly what its parts do one after the other
fn composite(m: &mut Model, op: &Op, parts: impl FnOnce(&mut Model) -> R<Option<u128>>, call: &dyn Fn(Option<u128>, u64) -> DispatchResult, lower: bool) -> R<Option<u128>> {
    must_refuse("an expired deadline", || call(None, 5))?;
    let mut m2 = m.clone();
    mcstore::begin();
    let r = parts(&mut m2);
    mcstore::rollback();
    match r? {
        None => { if tx(|| call(None, 6)).is_ok() { return bad("accepted:composite", format!("{:?} is accepted, its parts are refused", op)) } Ok(None) }
        Some(out) => {
            if lower { must_refuse("a minimum that is missed", || call(Some(out + 1), 6))?; }
            if let Err(e) = tx(|| call(lower.then_some(out), 6)) { return bad("refused:composite", format!("{:?} is refused: {}; its parts deliver {}", op, e, out)) }
            *m = m2;
            observe(m).map_err(|(k, w)| (format!("composite:{}", k), format!("{:?} differs from its parts: {}", op, w)))?;
            Ok(Some(out))
        }
    }
}
impl Machine for Pools {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", s.m).as_bytes()) }
    fn ops(&self, s: &St) -> Vec<Op> {
        let k = |c: usize, x: u128| coins(self.n, c, x).max(1);
        let lp = |u: usize, p: usize| s.m.led[u][LP[p]];
        let mut v = vec![];
        let mut add = |x: Simple| v.push(Op::S(x));
        for x in [vec![k(0, 100), k(1, 100), k(2, 100)], vec![0, 0, k(2, 50)], vec![k(0, 900), 1, 0], vec![0, 0, 0], vec![k(0, 1)]] { add(Add { u: 1, p: 0, x, to: 0 }); }
        for x in [vec![k(3, 100), k(4, 100)], vec![0, k(4, 50)], vec![k(3, 700), 0]] { add(Add { u: 0, p: 1, x, to: 0 }); }
        for p in 0..2 {
            add(Remove { u: 0, p, l: lp(0, p) / 3, to: 1 });
            add(Remove { u: 0, p, l: lp(0, p), to: 0 });
            add(Remove { u: 1, p, l: lp(1, p) + 1, to: 1 });
            let n = MEMBERS[p].len();
            for i in 0..n { add(RemoveOne { u: 0, p, l: lp(0, p) / if i == 0 { 3 } else { 50 }, i, to: 1 - i % 2 }); add(RemoveOne { u: 1, p, l: 1, i, to: 1 }); }
            add(RemoveOne { u: 0, p, l: lp(0, p), i: 0, to: 0 });
            add(RemoveOne { u: 0, p, l: 5, i: n, to: 0 });
            for i in 0..n { for j in 0..n { if i != j { let c = MEMBERS[p][i]; for x in [k(c, 20), k(c, if self.few { 300 } else { 2500 }), 1] { add(Swap { u: 0, p, i, j, x, to: 1 }); } } } }
            add(Swap { u: 0, p, i: 1, j: 1, x: 5, to: 0 });
            add(Swap { u: 0, p, i: 0, j: n, x: 5, to: 0 });
            let c = |i: usize, x: u128| k(MEMBERS[p][i], x);
            for x in if p == 0 { vec![vec![c(0, 10), 0, 0], vec![c(0, 3), c(1, 200), c(2, 20)], vec![0, 0, 1]] } else { vec![vec![c(0, 10), 0], vec![c(0, 1), c(1, 200)]] } { add(RemoveSome { u: 0, p, x, to: 1 }); }
        }
        for i in [0, 2] { v.push(Op::FromBase { u: 1, i, j: 0, x: k(i, 30), to: 0 }); }
        v.push(Op::FromBase { u: 0, i: 1, j: 1, x: k(1, 30), to: 1 });
        v.push(Op::FromBase { u: 0, i: 3, j: 0, x: k(1, 30), to: 1 });
        for j in [0, 1, 2] { v.push(Op::ToBase { u: 0, i: 0, j, x: k(3, 40), to: 1 }); }
        v.push(Op::ToBase { u: 0, i: 1, j: 0, x: k(4, 40), to: 1 });
        for (i, j) in [(0, 1), (0, 3), (2, 0), (3, 0), (1, 2), (3, 1), (2, 2), (0, 4)] { if i == 0 || s.m.fresh() || j > 0 { v.push(Op::Underlying { u: 1, i, j, x: k(if i == 0 { 3 } else { i - 1 }, 25), to: 0 }); } }
        v.push(Op::AddBoth { u: 1, m: k(3, 60), b: vec![k(0, 10), k(1, 20), k(2, 30)], to: 0 });
        v.push(Op::AddBoth { u: 1, m: k(3, 60), b: vec![0, 0, 0], to: 0 });
        v.push(Op::RemoveBoth { u: 0, l: lp(0, 1) / 4, to: 1 });
        v.push(Op::RemoveBothOne { u: 0, l: lp(0, 1) / 4, i: 1, to: 1 });
        for p in 0..2 {
            v.push(Op::Rate(p, if s.m.pools[p].fee == 0 { 4_000_000 } else { 0 }, if s.m.pools[p].admin == FD { 0 } else { FD }));
            v.push(Op::Collect(p));
            v.push(Op::Stop(p));
        }
        v.push(Op::Donate(0, 1, k(1, 5)));
        v.push(Op::Donate(1, 1, k(4, 5)));
        for t in [DAY as u64 / 2 + 7, CACHE, CACHE + 1] { v.push(Op::Time(t)) }
        let a = s.m.amp(0) / 100;
        for (x, d) in [(a * 2, 2 * DAY), ((a / 3).max(1), DAY), (a, DAY - 1), (a * 10, DAY), (a * 10 + 1, DAY), ((a - 1) / 10, DAY), (0, DAY), (1_000_000, DAY)] { v.push(Op::Ramp(0, x, d)) }
        v.push(Op::Ramp(1, s.m.amp(1) / 100 + 5, DAY));
        v
    }
    fn step(&self, s: &St, op: &Op) -> R<(St, String)> {
        let mut n = s.clone();
        let (r, map) = mcstore::isolated(s.map.clone(), || -> R<String> {
            let m = &mut n.m;
            let says = |r: Option<u128>, what: &str| if r.is_some() { what.to_string() } else { format!("no {}", what) };
            let label = match op.clone() {
                Op::S(x) => says(simple(m, &x, false)?, name(&x)),
                Op::FromBase { u, i, j, x, to } => {
                    let call = |min: Option<u128>, dl| Stb::swap_pool_from_base(signed(WHO[u]), META, BASE, i as u32, j as u32, x, min.unwrap_or(0), WHO[to], dl);
                    let r = composite(m, op, |m| { if i > 2 || j != 0 { return Ok(None) } let mut v = vec![0; 3]; v[i] = x; Ok(match simple(m, &Add { u, p: 0, x: v, to: u }, true)? { Some(l) => simple(m, &Swap { u, p: 1, i: 1, j, x: l, to }, true)?, None => None }) }, &call, true)?;
                    says(r, "swap from base")
                }
                Op::ToBase { u, i, j, x, to } => {
                    let call = |min: Option<u128>, dl| Stb::swap_pool_to_base(signed(WHO[u]), META, BASE, i as u32, j as u32, x, min.unwrap_or(0), WHO[to], dl);
                    let r = composite(m, op, |m| { if i != 0 { return Ok(None) } Ok(match simple(m, &Swap { u, p: 1, i, j: 1, x, to: u }, true)? { Some(l) => simple(m, &RemoveOne { u, p: 0, l, i: j, to }, true)?, None => None }) }, &call, true)?;
                    says(r, "swap to base")
                }
                Op::Underlying { u, i, j, x, to } => {
                    let call = |min: Option<u128>, dl| Stb::swap_meta_pool_underlying(signed(WHO[u]), META, i as u32, j as u32, x, min.unwrap_or(0), WHO[to], dl);
                    let quote = Stb::calculate_meta_swap_underlying(META, x, i, j).ok();
                    let fee = s.m.pools[0].fee;
                    let lp = std::cell::Cell::new(u128::MAX);
                    let r = composite(m, op, |m| {
                        if i == j || i > 3 || j > 3 { return Ok(None) }
                        if i > 0 && j > 0 {
                            let price = Stb::get_virtual_price(BASE);
                            let r = simple(m, &Swap { u, p: 0, i: i - 1, j: j - 1, x, to }, true)?;
                            if r.is_some() && !m.fresh() { m.vp = price; m.vp_at = m.now; }
                            return Ok(r)
                        }
                        if i == 0 { return Ok(match simple(m, &Swap { u, p: 1, i: 0, j: 1, x, to: u }, true)? { Some(l) => { lp.set(l.max(1)); simple(m, &RemoveOne { u, p: 0, l, i: j - 1, to }, true)? } None => None }) }
                        let mut v = vec![0; 3]; v[i - 1] = x;
                        Ok(match simple(m, &Add { u, p: 0, x: v, to: u }, true)? { Some(l) => simple(m, &Swap { u, p: 1, i: 1, j: 0, x: l, to }, true)?, None => None })
                    }, &call, true)?;
                    if let Some(out) = r {
                        let (under, over) = if i > 0 && j == 0 { let t = out * fee / FD + 3; (t, t) } else { let t = 8 + out / lp.get() * 2; (t, t) }; // the base pool's liquidity tokens are quoted to within a unit
                        match quote { Some(q) if q <= out + over && q + under >= out => (), _ if out <= 3 => (), q => return bad("quote:underlying", format!("{:?} is quoted {:?} and delivers {}", op, q, out)) }
                    }
                    says(r, "underlying swap")
                }
                Op::AddBoth { u, m: x, b, to } => {
                    let b2 = b.clone();
                    let call = |min: Option<u128>, dl| Stb::add_pool_and_base_pool_liquidity(signed(WHO[u]), META, BASE, vec![x, 0], b2.clone(), min.unwrap_or(0), WHO[to], dl);
                    let r = composite(m, op, |m| { let l = if b.iter().any(|v| *v > 0) { match simple(m, &Add { u, p: 0, x: b, to: u }, true)? { Some(l) => l, None => return Ok(None) } } else { 0 }; simple(m, &Add { u, p: 1, x: vec![x, l], to }, true) }, &call, true)?;
                    says(r, "add to both")
                }
                Op::RemoveBoth { u, l, to } => {
                    let call = |_: Option<u128>, dl| Stb::remove_pool_and_base_pool_liquidity(signed(WHO[u]), META, BASE, l, vec![0; 2], vec![0; 3], WHO[to], dl);
                    // the currencies of the meta pool itself go to the caller
                    let r = composite(m, op, |m| { let have = m.led[u][4]; Ok(match simple(m, &Remove { u, p: 1, l, to: u }, true)? { Some(_) => { let g = m.led[u][4] - have; simple(m, &Remove { u, p: 0, l: g, to }, true)? } None => None }) }, &call, false)?;
                    says(r, "remove from both")
                }
                Op::RemoveBothOne { u, l, i, to } => {
                    let call = |min: Option<u128>, dl| Stb::remove_pool_and_base_pool_liquidity_one_currency(signed(WHO[u]), META, BASE, l, i as u32, min.unwrap_or(0), WHO[to], dl);
                    let r = composite(m, op, |m| Ok(match simple(m, &RemoveOne { u, p: 1, l, i: 1, to: u }, true)? { Some(g) => simple(m, &RemoveOne { u, p: 0, l: g, i, to }, true)?, None => None }), &call, true)?;
                    says(r, "remove one from both")
                }
                Op::Rate(p, fee, admin) => {
                    must_refuse("a user as origin", || Stb::set_swap_fee(signed(1), p as u32, fee))?;
                    must_refuse("a user as origin", || Stb::set_admin_fee(signed(3), p as u32, admin))?;
                    must_refuse("a swap fee above 1%", || Stb::set_swap_fee(root(), p as u32, FD / 100 + 1))?;
                    must_refuse("an admin fee above 100%", || Stb::set_admin_fee(root(), p as u32, FD + 1))?;
                    if tx(|| Stb::set_swap_fee(root(), p as u32, fee)).is_err() || tx(|| Stb::set_admin_fee(root(), p as u32, admin)).is_err() { return bad("refused:rate", format!("{:?} is refused", op)) }
                    m.pools[p].fee = fee; m.pools[p].admin = admin;
                    "rates".into()
                }
                Op::Collect(p) => {
                    for (k, c) in MEMBERS[p].iter().enumerate() { let x = m.led[3 + p][*c] - m.pools[p].bal[k]; m.mv(*c, 3 + p, FEE, x); }
                    if let Err(e) = tx(|| Stb::withdraw_admin_fee(signed(2), p as u32)) { return bad("refused:collect", format!("{:?}: {}", op, e)) }
                    "collected".into()
                }
                Op::Donate(p, k, x) => {
                    let c = MEMBERS[p][k];
                    let r = tx(|| <Tokens as orml_traits::MultiCurrency<AccountId>>::transfer(CUR[c], &1, &pool_acc(p as u32), x));
                    if r.is_ok() { m.mv(c, 0, 3 + p, x); }
                    "donated".into()
                }
                Op::Time(t) => { m.now += t; set_time(m.now); "later".into() }
                Op::Ramp(p, a, d) => {
                    let ok = { let q = &m.pools[p]; let cur = m.amp(p); m.now as u128 >= q.t.0 + DAY && d >= DAY && a > 0 && a < 1_000_000 && a * 100 <= cur * 10 && a * 1000 >= cur };
                    let end = m.now as u128 + d;
                    must_refuse("a user as origin", || Stb::ramp_a(signed(1), p as u32, a, end))?;
                    let r = tx(|| Stb::ramp_a(root(), p as u32, a, end));
                    if r.is_ok() != ok { return bad("ramp", format!("{:?} from {} / 100 is {:?}, it must be {}", op, m.amp(p), r, if ok { "accepted" } else { "refused" })) }
                    if ok { let cur = m.amp(p); m.pools[p].a = (cur, a * 100); m.pools[p].t = (m.now as u128, end); }
                    if ok { "ramp".into() } else { "no ramp".into() }
                }
                Op::Stop(p) => {
                    must_refuse("a user as origin", || Stb::stop_ramp_a(signed(1), p as u32))?;
                    let ok = m.pools[p].t.1 > m.now as u128;
                    let r = tx(|| Stb::stop_ramp_a(root(), p as u32));
                    if r.is_ok() != ok { return bad("ramp", format!("{:?} is {:?}, the ramp ends at {}, now it is {}", op, r, m.pools[p].t.1, m.now)) }
                    if ok { let cur = m.amp(p); m.pools[p].a = (cur, cur); m.pools[p].t = (m.now as u128, m.now as u128); }
                    if ok { "ramp stopped".into() } else { "no ramp to stop".into() }
                }
            };
            observe(m)?;
            Ok(label)
        });
        n.map = map;
        r.map(|l| (n, l))
    }
}
pub fn x02(ctx: &mut Ctx) {
    let quick = ctx.pick(true, false);
    for (name, n, a, fee, admin) in [("ordinary amounts", E18, [200u128, 50], 4_000_000u128, FD / 2), ("small amounts", 1_000_000_000_000, [1, 2000], FD / 100, FD), ("large amounts", E18 * 1_000_000_000, [5000, 10], 30_000_000, 0)] {
        let Some(s0) = create(ctx, n, a, fee, admin) else { return };
        let mut p = Pools { start: vec![("no meta liquidity".into(), s0.clone())], n, few: n == E18 };
        let k = |c: usize, x: u128| coins(n, c, x).max(1);
        let open = vec![Op::S(Add { u: 1, p: 0, x: vec![k(0, 2000), k(1, 1500), k(2, 1800)], to: 1 }), Op::S(Add { u: 0, p: 1, x: vec![k(3, 900), k(4, 1000)], to: 0 }), Op::S(Add { u: 1, p: 1, x: vec![k(3, 100), k(4, 300)], to: 1 })];
        let more = |x: &[Op]| { let mut v = open.clone(); v.extend_from_slice(x); v };
        let sw = |p, i, j, c: usize, x| Op::S(Swap { u: 1, p, i, j, x: k(c, x), to: 1 });
        let mut list = vec![
            ("both pools", more(&[])),
            ("imbalanced", more(&[sw(0, 0, 2, 0, 3000), sw(1, 0, 1, 3, 1300)])),
            ("earned fees, stale price", more(&[Op::Rate(0, FD / 100, 0), sw(0, 0, 1, 0, 1200), sw(0, 1, 0, 1, 1100), sw(0, 2, 0, 2, 500), Op::Time(CACHE)])),
            ("earned fees, new price", more(&[Op::Rate(0, FD / 100, FD / 2), sw(0, 0, 1, 0, 1200), sw(0, 1, 0, 1, 1100), Op::Time(CACHE + 1)])),
            ("ramping", more(&[Op::Ramp(0, a[0] * 3, 3 * DAY), Op::Ramp(1, a[1] / 2, 2 * DAY), Op::Time(DAY as u64 + 11)])),
            ("no fee", more(&[Op::Rate(0, 0, 0), Op::Rate(1, 0, 0)])),
        ];
        if !quick || n == E18 { list.push(("one left", more(&[Op::S(Remove { u: 1, p: 0, l: 1, to: 1 }), Op::S(RemoveOne { u: 1, p: 1, l: k(4, 300), i: 0, to: 1 })]))); }
        for (nm, ops) in list {
            let mut s = s0.clone();
            let mut done = vec![];
            let mut ok = true;
            for o in &ops { done.push(format!("{:?}", o)); match p.step(&s, o) { Ok((x, l)) => { done.push(l); s = x } Err((key, w)) => { ctx.fail(key, format!("{} after {}", w, done.join(" ; ")), done.clone()); ok = false; break } } }
            if ok { p.start.push((nm.into(), s)) }
        }
        let depth = ctx.pick(2, 3);
        let c = bfs(ctx, &p, depth, ctx.pick(2_000_000, 4_000_000));
        ctx.bound(format!("{}: {} scenarios, all histories up to {} further operations over a base pool of three and a meta pool of two currencies: {} states", name, p.start.len(), depth, c));
    }
}
/// the chain with both pools open, for the router
pub fn opened(ctx: &mut Ctx, n: u128) -> Option<(Map, Model)> {
    let s0 = create(ctx, n, [200, 50], 4_000_000, FD / 2)?;
    let k = |c: usize, x: u128| coins(n, c, x).max(1);
    let p = Pools { start: vec![], n, few: true };
    let mut s = s0;
    for o in [Op::S(Add { u: 0, p: 0, x: vec![k(0, 3000), k(1, 2500), k(2, 2800)], to: 0 }), Op::S(Add { u: 0, p: 1, x: vec![k(3, 900), k(4, 1000)], to: 0 })] {
        match p.step(&s, &o) { Ok((x, _)) => s = x, Err((key, w)) => { ctx.fail(key, w.clone(), vec![w]); return None } }
    }
    Some((s.map, s.m))
}
