//! G04: every extrinsic of an alphabet (who pays, through which swap path, with which limit and tip, which call, with which
//! outcome and fee override) in every state reached by sequences of extrinsics, against exact books.
use crate::soc::System;
use crate::soc::*;
use dex_general::WeightInfo;
use frame_support::{dispatch::{GetDispatchInfo, Pays}, weights::Weight};
use kit::{System as Machine, *};
use mcstore::Map;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use orml_traits::{MultiCurrency, MultiLockableCurrency};
use sp_runtime::traits::SignedExtension;
use std::collections::BTreeMap;

type Charge = pallet_transaction_payment::ChargeTransactionPayment<Test>;
const A: CurrencyId = Token(KSM);
const B: CurrencyId = Token(KBTC);
const C: CurrencyId = ForeignAsset(7);
const N: CurrencyId = NATIVE;
const COINS: [CurrencyId; 4] = [N, A, B, C];
/// pools and their fees in 1/10000
const POOLS: [(CurrencyId, CurrencyId, u128); 4] = [(N, A, 30), (A, B, 100), (N, B, 0), (A, C, 30)];
const LP: u128 = 5;
const TO: u128 = 50;
const P: u128 = 10;
const Q: u128 = 11;
fn big(x: u128) -> BigUint { BigUint::from(x) }
fn dex(len: usize) -> u64 { <() as WeightInfo>::swap_assets_for_exact_assets(len as u32).ref_time() }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Limit { Zero, Below, Exact, Above, Any }
#[derive(Clone, Debug)]
pub enum Leaf {
    /// expected weight, annotated as paying, actual weight, fails, post-dispatch paying
    Run(u64, bool, Option<u64>, bool, bool),
    Transfer(CurrencyId, u128),
    Operate,
    /// transfer of everything the payer has of the coin when the call runs (plus the excess)
    All(CurrencyId, u128),
}
#[derive(Clone, Debug)]
pub struct Xt { who: u128, path: Option<(Vec<CurrencyId>, Limit)>, nested: Option<(Vec<CurrencyId>, bool)>, leaf: Leaf, tip: u128, len: usize }
#[derive(Clone, PartialEq)]
pub struct Books { led: BTreeMap<(u128, CurrencyId), u128>, runs: BTreeMap<u128, u32>, frozen: u128 }
impl Books {
    fn at(&mut self, a: u128, c: CurrencyId) -> &mut u128 { self.led.entry((a, c)).or_default() }
    fn has(&self, a: u128, c: CurrencyId) -> u128 { self.led.get(&(a, c)).copied().unwrap_or(0) }
    /// move what is free and not frozen
    fn mv(&mut self, a: u128, b: u128, c: CurrencyId, x: u128) -> Option<()> {
        let h = self.has(a, c);
        let keep = if a == P && c == N { self.frozen } else { 0 };
        if x == 0 { return Some(()) }
        if h < x || h - x < keep { return None }
        *self.at(a, c) = h - x;
        *self.at(b, c) += x;
        Some(())
    }
    fn pool(&self, x: CurrencyId, y: CurrencyId) -> Option<(u128, u128)> {
        let i = POOLS.iter().position(|p| (p.0, p.1) == (x, y) || (p.1, p.0) == (x, y))?;
        Some((1000 + i as u128, POOLS[i].2))
    }
    fn product(&self, x: CurrencyId, y: CurrencyId) -> BigUint { let a = self.pool(x, y).unwrap().0; big(self.has(a, x)) * big(self.has(a, y)) }
    fn quote(&self, want: u128, path: &[CurrencyId]) -> Option<Vec<u128>> {
        if path.len() < 2 { return None }
        let mut v = vec![want];
        for w in path.windows(2).rev() {
            let (a, fee) = self.pool(w[0], w[1])?;
            let (ri, ro, y) = (self.has(a, w[0]), self.has(a, w[1]), *v.last().unwrap());
            if ri == 0 || ro == 0 || y == 0 || y >= ro { return None }
            v.push((big(ri) * big(y) * big(10_000) / (big(ro - y) * big(10_000 - fee)) + big(1)).to_u128()?);
        }
        v.reverse();
        Some(v)
    }
    fn swap(&mut self, who: u128, want: u128, max: u128, path: &[CurrencyId]) -> Option<()> {
        let v = self.quote(want, path)?;
        if v[0] > max { return None }
        let first = self.pool(path[0], path[1])?.0;
        self.mv(who, first, path[0], v[0])?;
        for (h, w) in path.windows(2).enumerate() {
            let p = self.pool(w[0], w[1])?.0;
            // the product before this hop's input arrived
            let before = big(self.has(p, w[0]) - v[h]) * big(self.has(p, w[1]));
            let to = if h + 2 < path.len() { self.pool(w[1], path[h + 2])?.0 } else { who };
            let have = self.has(p, w[1]);
            if have < v[h + 1] { return None }
            *self.at(p, w[1]) -= v[h + 1];
            let after = self.product(w[0], w[1]);
            *self.at(to, w[1]) += v[h + 1];
            if after < before { return None }
        }
        Some(())
    }
    fn leaf(&mut self, who: u128, l: &Leaf) -> bool {
        match l {
            Leaf::Run(_, _, _, fail, _) => { if !fail { *self.runs.entry(who).or_default() += 1 } !fail }
            Leaf::Operate => { *self.runs.entry(who).or_default() += 1; true }
            Leaf::Transfer(c, x) => self.mv(who, TO, *c, *x).is_some(),
            Leaf::All(c, x) => { let h = self.has(who, *c) + x; self.mv(who, TO, *c, h).is_some() }
        }
    }
}
fn leaf_call(l: &Leaf) -> RuntimeCall {
    match l {
        Leaf::Run(e, ann, act, fail, pays) => RuntimeCall::Probe(probe::Call::run { expected: Weight::from_parts(*e, 0), annotated: *ann, actual: act.map(|w| Weight::from_parts(w, 0)), fail: *fail, pays_fee: if *pays { Pays::Yes } else { Pays::No } }),
        Leaf::Operate => RuntimeCall::Probe(probe::Call::operate {}),
        Leaf::Transfer(c, x) | Leaf::All(c, x) => RuntimeCall::Tokens(orml_tokens::Call::transfer { dest: TO, currency_id: *c, amount: *x }),
    }
}
fn through(path: &[CurrencyId], max: u128, call: RuntimeCall) -> RuntimeCall { RuntimeCall::MultiTransactionPayment(multi_transaction_payment::Call::with_fee_swap_path { path: path.to_vec(), amount_in_max: max, call: Box::new(call) }) }
/// (announced weight, announced as paying, actual weight if reported, paying after dispatch)
fn weights(x: &Xt) -> (u64, bool, Option<u64>, bool) {
    let (mut w, mut ann, mut act, post) = match &x.leaf {
        Leaf::Run(e, a, act, _, p) => (*e, *a, *act, *p),
        Leaf::Operate => (1000, true, None, true),
        _ => (10_000, true, None, true),
    };
    if let Some((p, batch)) = &x.nested {
        let d = dex(p.len());
        w += d;
        act = act.map(|a| a + d);
        ann = true;
        if *batch { // the batch of the shim announces nothing and reports nothing
            w = 0;
            return wrap(x, w, true, None, true)
        }
    }
    wrap(x, w, ann, act, post)
}
fn wrap(x: &Xt, w: u64, ann: bool, act: Option<u64>, post: bool) -> (u64, bool, Option<u64>, bool) {
    match &x.path { Some((p, _)) => (w + dex(p.len()), true, act.map(|a| a + dex(p.len())), post), None => (w, ann, act, post) }
}
#[derive(Clone)]
pub struct St { map: Map, books: Books }
pub struct Payments { label: &'static str, xts: Vec<Xt>, pools: [(u128, u128); 4], native: (u128, u128), coins: u128, frozen: u128 }
impl Payments {
    fn books(&self) -> Books {
        let mut led = BTreeMap::new();
        for (i, a) in accounts().into_iter() { for c in COINS { led.insert((i, c), <Tokens as MultiCurrency<u128>>::free_balance(c, &a)); } }
        let runs = [0, 1, P, Q].into_iter().filter_map(|a| { let n = probe::Runs::<Test>::get(a); (n > 0).then_some((a, n)) }).collect();
        Books { led, runs, frozen: self.frozen }
    }
}
/// (index in the books, account)
fn accounts() -> Vec<(u128, u128)> {
    let mut v: Vec<(u128, u128)> = [P, Q, TO, LP].into_iter().map(|a| (a, a)).collect();
    v.push((999, Treasury::get()));
    for (i, p) in POOLS.iter().enumerate() { v.push((1000 + i as u128, DexGeneral::pair_account_id(p.0, p.1))); }
    v
}
impl Machine for Payments {
    type State = St;
    type Op = usize;
    fn initial(&self) -> Vec<(String, St)> {
        let rich = u128::MAX / 64;
        let mut g = vec![];
        for c in COINS { g.push((LP, c, rich)); }
        for (w, n) in [(P, self.native.0), (Q, self.native.1)] { g.push((w, N, n)); for c in [A, B, C] { g.push((w, c, self.coins)); } }
        let ((), map) = mcstore::isolated(genesis(&g), || {
            System::set_block_number(1);
            for (i, p) in POOLS.iter().enumerate() {
                DexGeneral::create_pair(RuntimeOrigin::root(), p.0, p.1, p.2).unwrap();
                let (x, y) = self.pools[i];
                if x > 0 { DexGeneral::add_liquidity(RuntimeOrigin::signed(LP), p.0, p.1, x, y, 0, 0, u64::MAX).unwrap(); }
            }
            if self.frozen > 0 { <Tokens as MultiLockableCurrency<u128>>::set_lock(*b"escrowlk", N, &P, self.frozen).unwrap(); }
        });
        let (b, _) = mcstore::isolated(map.clone(), || self.books());
        vec![(self.label.into(), St { map, books: b })]
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", (&s.books.led, &s.books.runs)).as_bytes()) }
    fn ops(&self, _: &St) -> Vec<usize> { (0..self.xts.len()).collect() }
    fn step(&self, s: &St, op: &usize) -> Result<(St, String), (String, String)> {
        let x = &self.xts[*op];
        // -- the rule
        let mut m = s.books.clone();
        let (w, ann, _, _) = weights(x);
        let size = 3 * x.len as u128;
        let fee = if ann { size + w as u128 + x.tip } else { x.tip };
        let quoted = x.path.as_ref().and_then(|(p, _)| if p.last() == Some(&N) { m.quote(fee, p).map(|v| v[0]) } else { None });
        let max = x.path.as_ref().map(|(_, l)| match l { Limit::Zero => 0, Limit::Below => quoted.unwrap_or(1000) - 1, Limit::Exact => quoted.unwrap_or(1000), Limit::Above => quoted.unwrap_or(1000) + 1, Limit::Any => u128::MAX });
        let mut accepted = true;
        if fee > 0 {
            if let Some((p, _)) = &x.path { accepted = p.last() == Some(&N) && m.swap(x.who, fee, max.unwrap(), p).is_some(); }
            accepted = accepted && m.mv(x.who, 998, N, fee).is_some();
        }
        let mut ran = false;
        let mut charged = 0;
        if accepted {
            ran = m.leaf(x.who, &x.leaf);
            let (w, ann, act, post) = weights(x);
            let pays = ann && post;
            charged = if pays { size + act.unwrap_or(w).min(w) as u128 + x.tip } else { x.tip };
            *m.at(998, N) = 0;
            *m.at(999, N) += charged;
            *m.at(x.who, N) += fee - charged;
        } else { m = s.books.clone() }
        m.led.remove(&(998, N));
        // -- the code
        let ((why, got), map) = mcstore::isolated(s.map.clone(), || {
            let leaf = match &x.leaf { Leaf::All(c, e) => { let mut b = s.books.clone(); if fee > 0 && accepted { if let Some((p, _)) = &x.path { b.swap(x.who, fee, max.unwrap(), p); } b.mv(x.who, 998, N, fee); } Leaf::Transfer(*c, b.has(x.who, *c) + e) } l => l.clone() };
            let mut call = leaf_call(&leaf);
            if let Some((p, batch)) = &x.nested {
                call = through(p, 1, call);
                if *batch { call = RuntimeCall::Utility(pallet_utility::Call::batch_all { calls: vec![call] }) }
            }
            if let Some((p, _)) = &x.path { call = through(p, max.unwrap(), call) }
            let info = call.get_dispatch_info();
            let ext = Charge::from(x.tip);
            mcstore::begin();
            let valid = ext.validate(&x.who, &call, &info, x.len).is_ok();
            mcstore::rollback();
            mcstore::begin();
            let pre = match ext.pre_dispatch(&x.who, &call, &info, x.len) { Ok(p) => p, Err(e) => {
                mcstore::rollback();
                let e = if accepted { Some(format!("a transaction whose fee can be paid as stated is refused: {e:?}")) } else if valid { Some("the transaction is found valid but refused when it is applied".to_string()) } else { None };
                return (e, self.books())
            } };
            let rejected = || { mcstore::rollback(); };
            if !accepted { rejected(); return (Some("a transaction is accepted although its fee cannot be paid as stated".into()), self.books()) }
            if !valid { rejected(); return (Some("the transaction is applied although it was found invalid".into()), self.books()) }
            mcstore::begin();
            let r = call.dispatch(RuntimeOrigin::signed(x.who));
            let (done, post) = match &r { Ok(p) => { mcstore::commit(); (true, p.clone()) } Err(e) => { mcstore::rollback(); (false, e.post_info.clone()) } };
            let res = r.map(|_| ()).map_err(|e| e.error);
            let out = Charge::post_dispatch(Some(pre), &info, &post, x.len, &res);
            mcstore::commit();
            if out.is_err() { return (Some("the fee cannot be settled after dispatch".into()), self.books()) }
            if done != ran { return (Some(format!("the wrapped call {} but should {}", if done { "succeeded".to_string() } else { format!("failed with {res:?}") }, if ran { "succeed" } else { "fail" })), self.books()) }
            (None, self.books())
        });
        if let Some(e) = why { return Err(("flow".into(), format!("{:?}: {}", x, e))) }
        if got != m {
            let mut d: Vec<String> = vec![];
            for (k, v) in &m.led { let g = got.led.get(k).copied().unwrap_or(0); if g != *v { d.push(format!("{} of {:?}: {} expected {} (before {})", name(k.0), k.1, g, v, s.books.has(k.0, k.1))) } }
            if got.runs != m.runs { d.push(format!("runs {:?} expected {:?}", got.runs, m.runs)) }
            let what = if !accepted { "a rejected transaction changed state".to_string() } else { format!("fee {fee}, charged {charged}, quoted {quoted:?}, limit {max:?}, inner call {}", if ran { "succeeds" } else { "fails" }) };
            return Err(("books".into(), format!("{:?}: {}: {}", x, what, d.join("; "))))
        }
        if !accepted { return Ok((s.clone(), "rejected".into())) }
        let l = format!("{} {}, {}{}", if x.path.is_some() { "swapped" } else { "native" }, if ran { "done" } else { "failed" }, if charged < fee { "refund" } else { "full" }, if x.nested.is_some() { ", nested" } else { "" });
        Ok((St { map, books: m }, l))
    }
}
fn name(a: u128) -> String { match a { P => "payer".into(), Q => "second payer".into(), TO => "recipient".into(), LP => "provider".into(), 999 => "treasury".into(), x if x >= 1000 => format!("pool {}", x - 1000), x => x.to_string() } }

/// all combinations
fn product(whos: &[u128], paths: &[Option<(Vec<CurrencyId>, Limit)>], nested: &[Option<(Vec<CurrencyId>, bool)>], leaves: &[Leaf], tips: &[u128], lens: &[usize]) -> Vec<Xt> {
    let mut v = vec![];
    for &who in whos { for path in paths { for n in nested { for leaf in leaves { for &tip in tips { for &len in lens { if path.is_none() && matches!(n, Some((_, false))) { continue } v.push(Xt { who, path: path.clone(), nested: n.clone(), leaf: leaf.clone(), tip, len }) } } } } } }
    v
}
pub fn g04(ctx: &mut Ctx) {
    let u = 1_000_000_000_000u128;
    let lps = LpToken(primitives::LpToken::Token(KSM), primitives::LpToken::Token(KBTC));
    let limits = [Limit::Zero, Limit::Below, Limit::Exact, Limit::Above, Limit::Any];
    let mut paths: Vec<Option<(Vec<CurrencyId>, Limit)>> = vec![None];
    for l in limits { for p in [vec![A, N], vec![B, N], vec![B, A, N], vec![C, A, N], vec![C, A, B, N]] { paths.push(Some((p, l))) } }
    for p in [vec![], vec![N], vec![A], vec![A, A], vec![N, A], vec![A, B], vec![C, N], vec![N, N], vec![A, N, A], vec![lps, N], vec![A, lps, N], vec![N, A, N], vec![A, N, A, N], vec![N, A, B, N], vec![A, N, B], vec![ForeignAsset(8), N]] { paths.push(Some((p, Limit::Any))) }
    paths.push(Some((vec![N, A, B, N], Limit::Exact)));
    paths.push(Some((vec![N, A, B, N], Limit::Below)));
    let run = |e, ann, act, fail, pays| Leaf::Run(e, ann, act, fail, pays);
    let leaves = vec![
        run(5_000_000, true, None, false, true), run(5_000_000, true, Some(2_000_000), false, true), run(5_000_000, true, Some(0), true, true), run(5_000_000, true, Some(9_000_000), false, true),
        run(5_000_000, true, None, false, false), run(5_000_000, true, None, true, false), run(5_000_000, false, None, false, true), run(5_000_000, true, None, true, true),
        Leaf::Operate, Leaf::Transfer(N, 1), Leaf::Transfer(A, 7), Leaf::All(N, 0), Leaf::All(N, 1), Leaf::All(A, 0), Leaf::All(A, 1), Leaf::All(B, 1),
    ];
    let nested = vec![None, Some((vec![A, N], false)), Some((vec![A, N], true)), Some((vec![], false)), Some((vec![N, A, B], false))];
    let deep = [(1000 * u, 4000 * u), (2500 * u, 3000 * u), (700 * u, 1500 * u), (900 * u, 100 * u)];
    // -- single transactions: everything
    let f0 = 3 * 100 + 5_000_000u128;
    let mut total = 0;
    for (label, pools, native, coins, frozen) in [
        ("rich payers", deep, (50 * u, 50 * u), 100 * u, 0),
        ("no native currency", deep, (0, 0), 100 * u, 0),
        ("native for exactly one fee", deep, (f0, f0 - 1), 100 * u, 0),
        ("all native locked", deep, (50 * u, 0), 100 * u, 50 * u),
        ("more locked than owned", deep, (50 * u, 0), 100 * u, 60 * u),
        ("little to swap", deep, (0, 3 * u), 300_000_000, 0),
        ("shallow pools", [(900_000_000, 1000), (1000, 1_000_000_000), (0, 0), (7_000, 8_000)], (u, 0), 100 * u, 0),
        ("lopsided pools", [(u, 4_000_000 * u), (2_000_000 * u, u), (400_000_000, 3_000_000_000), (u, 1_000_000)], (u, 0), 100_000 * u, 0),
    ] {
        let xts = product(&[P, Q], &paths, &nested, &leaves, ctx.pick(&[0, 1_000_000][..], &[0, 1, 1_000_000, 60_000_000_000_000][..]), &[100]);
        let k = xts.len();
        let m = Payments { label, xts, pools, native, coins, frozen };
        total += k;
        bfs(ctx, &m, 1, 3_000_000);
    }
    ctx.bound(format!("{total} transactions (every combination of payer, path of up to four currencies, limit around the exact price, nesting, call and outcome, tip) in eight situations"));
    // -- sequences
    let few: Vec<Option<(Vec<CurrencyId>, Limit)>> = vec![None, Some((vec![A, N], Limit::Exact)), Some((vec![B, A, N], Limit::Exact)), Some((vec![B, A, N], Limit::Below)), Some((vec![N, A, B, N], Limit::Any))];
    let calls = vec![run(5_000_000, true, Some(2_000_000), false, true), run(5_000_000, true, None, true, false), Leaf::All(N, 0), Leaf::Transfer(A, 7)];
    for (label, pools, native, coins) in [("rich payers", deep, (50 * u, 0), 100 * u), ("little to swap", deep, (0, 3 * u), 1_000_000_000), ("shallow pools", [(3_000_000_000, 10_000), (4_000, 1_000_000_000), (2_000_000_000, 7_000), (7_000, 8_000)], (u, 0), 100 * u)] {
        let xts = product(&[P, Q], &few, &nested[..2], &calls, &[3], &[100]);
        let d = ctx.pick(2, 3);
        let k = xts.len();
        let m = Payments { label, xts, pools, native, coins, frozen: 0 };
        let n = bfs(ctx, &m, d, 3_000_000);
        ctx.bound(format!("{label}: all sequences of {d} of {k} transactions, {n} states"));
    }
}
