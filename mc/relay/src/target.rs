//! R02: which headers are stored: every corruption of a mined header in small trees, and difficulty across retarget
//! boundaries (with headers whose hash is given, because nobody can mine them).
use bitcoin::types::{BlockHeader, H256Le};
use codec::Encode;
use kit::{System as Machine, *};
use mcstore::Map;
use num_bigint::BigUint;
use rt::{btc, *};
use sp_core::U256;
use std::collections::BTreeMap;

fn big(x: U256) -> BigUint { let mut b = [0; 32]; x.to_big_endian(&mut b); BigUint::from_bytes_be(&b) }
fn u256(x: &BigUint) -> U256 { U256::from_big_endian(&x.to_bytes_be()) }
/// rounded down to what compact bits can express: three significant bytes, the top bit of which is clear
fn compact_floor(x: &BigUint) -> BigUint {
    let mut size = x.to_bytes_be().len() as u32;
    if size > 3 || x.bits() % 8 == 0 { if x.bits() % 8 == 0 && x.bits() > 0 { size += 1 } }
    if size <= 3 { return x.clone() }
    let s = 8 * (size - 3);
    (x >> s) << s
}
fn retarget(old: U256, span: i64) -> U256 {
    let w = 14 * 24 * 3600i64;
    let t = span.clamp(w / 4, w * 4);
    let x = big(old) * (t as u64) / (w as u64);
    let max: BigUint = (BigUint::from(1u8) << 224u32) - 1u8;
    u256(&compact_floor(&if x > max { max } else { x }))
}

#[derive(Clone)]
struct N { parent: u32, height: u32, time: u32, target: U256, hash: H256Le }
#[derive(Clone)]
pub struct St { map: Map, n: BTreeMap<u32, N>, next: u32, tip: u32, open: Vec<u32> }
#[derive(Clone, Debug)]
pub enum Op { /** on this header: target and time choice */ Header(u32, T, u8, bool) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { Parent, Due, Twice, Quarter, Max, Old }
pub struct Pow { start: Vec<(String, St)>, branches: usize }
const SPACING: [i64; 4] = [600, 100_000, 3_000_000, -200_000];
fn name(i: u32) -> H256Le { let mut b = [0; 32]; b[..4].copy_from_slice(&(i + 1).to_le_bytes()); H256Le::from_bytes_le(&b) }
fn header(prev: H256Le, time: u32, target: U256, hash: H256Le) -> BlockHeader { BlockHeader { merkle_root: H256Le::zero(), target, timestamp: time, version: 4, hash, hash_prev_block: prev, nonce: 0 } }
impl St {
    fn due(&self, p: u32) -> U256 {
        let x = &self.n[&p];
        if (x.height + 1) % 2016 != 0 { return x.target }
        let mut f = x;
        while f.height != x.height + 1 - 2016 { f = &self.n[&f.parent] }
        retarget(x.target, x.time as i64 - f.time as i64)
    }
}
impl Pow {
    fn put(s: &mut St, p: u32, time: u32, target: U256) -> Result<(), String> {
        let h = name(s.next);
        tx(|| BTCRelay::_store_block_header(&99, header(s.n[&p].hash, time, target, h)).map_err(|e| err_name(&e)))?;
        s.n.insert(s.next, N { parent: p, height: s.n[&p].height + 1, time, target, hash: h });
        if s.n[&s.next].height > s.n[&s.tip].height { s.tip = s.next }
        s.next += 1;
        Ok(())
    }
    /// a chain of `len` headers from a difficulty period start, followed by branches
    fn new(first: U256, spacing: u32, len: u32, branches: usize, forks: &[(u32, u32)]) -> Result<Pow, (String, String)> {
        let g = Genesis { bitcoin_confirmations: 3, vaults: 0, difficulty_check: true, ..Default::default() }.build();
        let (s, map) = mcstore::isolated(g, || {
            let mut s = St { map: Default::default(), n: Default::default(), next: 1, tip: 0, open: vec![] };
            BTCRelay::_initialize(99, header(H256Le::zero(), 1_600_000_000, first, name(0)), 4032).map_err(|e| ("initialize".to_string(), err_name(&e)))?;
            s.n.insert(0, N { parent: 0, height: 4032, time: 1_600_000_000, target: first, hash: name(0) });
            for _ in 0..len { let t = s.n[&s.tip].time + spacing; let (due, p) = (s.due(s.tip), s.tip); Self::put(&mut s, p, t, due).map_err(|e| (format!("refused:{}", e), format!("header {} of a plain chain was refused: {}", s.next, e)))? }
            s.open = vec![s.tip, s.tip - 1, s.tip - 2];
            for (back, len) in forks {
                let mut p = s.tip - back;
                for _ in 0..*len {
                    let t = s.n[&p].time + spacing + 1;
                    let due = s.due(p);
                    let tip = s.tip;
                    Self::put(&mut s, p, t, due).map_err(|e| (format!("refused:{}", e), format!("header {} of a fork {} blocks from the tip was refused: {}", s.next, back, e)))?;
                    s.tip = tip;
                    p = s.next - 1;
                }
                s.open.push(p);
            }
            Ok(s)
        });
        let mut s: St = s?;
        s.map = map;
        Ok(Pow { start: vec![(format!("{} headers {} s apart from target 2^{}, {} forks", len, spacing, big(first).bits(), forks.len()), s)], branches })
    }
}
impl Machine for Pow {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![];
        for p in &s.open { for t in [T::Due, T::Parent, T::Old, T::Twice, T::Quarter, T::Max] { for sp in 0..SPACING.len() as u8 { for good in [true, false] {
            let boundary = (s.n[p].height + 2) % 2016 == 0 || (s.n[p].height + 1) % 2016 == 0;
            if !boundary && sp > 0 { continue }
            if (!good || t != T::Due) && sp > 0 { continue }
            v.push(Op::Header(*p, t, sp, good))
        } } } }
        v
    }
    fn key(&self, s: &St) -> u128 { fp(format!("{:?}", s.n.iter().rev().take(12).map(|(i, x)| (*i, x.parent, x.height, x.time, x.target)).collect::<Vec<_>>()).as_bytes()) }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let Op::Header(p, t, sp, good) = *op;
        let x = &s.n[&p];
        let due = s.due(p);
        let target = match t { T::Due => due, T::Parent => x.target, T::Old => s.n[&0].target, T::Twice => due * 2, T::Quarter => due / 4, T::Max => U256::from(0xffffu32) << 208 };
        let time = (x.time as i64 + SPACING[sp as usize]) as u32;
        // the hash has to be below the target it claims
        let hash = if good { name(s.next) } else { let mut b = [0; 32]; (target + 1 + U256::from(s.next)).to_little_endian(&mut b); H256Le::from_bytes_le(&b) };
        let (r, map) = mcstore::isolated(s.map.clone(), || tx(|| BTCRelay::_store_block_header(&99, header(x.hash, time, target, hash)).map_err(|e| err_name(&e))));
        let want = target == due && good;
        match (r, want) {
            (Ok(()), true) => {
                let mut n = s.clone();
                n.map = map;
                n.n.insert(n.next, N { parent: p, height: x.height + 1, time, target, hash });
                if !n.open.contains(&n.next) { n.open.push(n.next) }
                if n.open.len() > self.branches { n.open.remove(0); }
                n.next += 1;
                Ok((n, if (x.height + 1) % 2016 == 0 { "stored at a retarget" } else { "stored" }.into()))
            }
            (Err(e), false) => if map == s.map { Ok((s.clone(), format!("refused {}", e))) } else { Err(("refused-but-changed".into(), "a refused header changed the state".into())) },
            (Ok(()), false) => Err(("accepted".into(), format!("height {}: accepted target {:x} (due {:x}), hash {} the target", x.height + 1, target, due, if good { "below" } else { "above" }))),
            (Err(e), true) => Err((format!("refused:{}", e), format!("height {}: refused a header with the due target {:x}: {}", x.height + 1, due, e))),
        }
    }
}
/// every single-field change of a mined header submitted to the extrinsic
fn fields(ctx: &mut Ctx) {
    let g = Genesis { bitcoin_confirmations: 2, vaults: 0, ..Default::default() }.build();
    mcstore::isolated(g, || {
        let store = |h: BlockHeader, bound: u32| tx(|| BTCRelay::store_block_header(signed(7), h, bound).map(|_| ()).map_err(|e| err_name(&e)));
        for round in 0..ctx.pick(6, 20u32) {
            let b = btc::build(BTCRelay::get_best_block(), btc::height() + 1, &[]);
            let h = b.header;
            let mut variants: Vec<(String, BlockHeader)> = vec![("as mined".into(), h)];
            for v in [i32::MIN, -1, 0, 1, 2, 3, 4, 5, 0x20000000, i32::MAX] { variants.push((format!("version {}", v), BlockHeader { version: v, ..h })) }
            for n in 0..24u32 { variants.push((format!("nonce {}", n), BlockHeader { nonce: n, ..h })) }
            for t in [0, 1, u32::MAX, h.timestamp + 1] { variants.push((format!("time {}", t), BlockHeader { timestamp: t, ..h })) }
            variants.push(("claimed hash zero".into(), BlockHeader { hash: H256Le::zero(), ..h }));
            variants.push(("claimed hash of a stored header".into(), BlockHeader { hash: BTCRelay::get_best_block(), ..h }));
            variants.push(("merkle root".into(), BlockHeader { merkle_root: H256Le::zero(), ..h }));
            variants.push(("unknown parent".into(), BlockHeader { hash_prev_block: H256Le::from_bytes_le(&[3; 32]), ..h }));
            variants.push(("no parent".into(), BlockHeader { hash_prev_block: H256Le::zero(), ..h }));
            for e in 230..=255u32 { variants.push((format!("target 2^{}", e), BlockHeader { target: U256::from(1) << e, ..h })) }
            variants.push(("target 0".into(), BlockHeader { target: U256::zero(), ..h }));
            for (what, v) in variants {
                // hash of the 80 bytes as they go over the wire
                let mut bytes = vec![];
                bytes.extend(v.version.to_le_bytes());
                bytes.extend(v.hash_prev_block.to_bytes_le());
                bytes.extend(v.merkle_root.to_bytes_le());
                bytes.extend(v.timestamp.to_le_bytes());
                bytes.extend(bits(v.target).to_le_bytes());
                bytes.extend(v.nonce.to_le_bytes());
                let hash = bitcoin::utils::sha256d_le(&bytes);
                let known = |x: H256Le| crate::tree::rich(x).is_some();
                let want = v.version >= 4 && known(v.hash_prev_block) && !known(hash) && big(U256::from_little_endian(&hash.to_bytes_le())) < big(v.target);
                mcstore::begin();
                let r = store(v, 100);
                let stored = crate::tree::rich(hash);
                ctx.case(1);
                ctx.outcome(if r.is_ok() { "stored" } else { "refused" });
                if r.is_ok() != want { ctx.fail(if want { "field:refused" } else { "field:accepted" }, format!("header with {} after {} blocks: {:?}, expected to be {}", what, round, r, if want { "stored" } else { "refused" }), vec![what.clone()]) }
                if r.is_ok() { ctx.ensure("field:hash", stored.map_or(false, |s| s.block_header.hash == hash && s.block_header.merkle_root == v.merkle_root && s.block_header.hash_prev_block == v.hash_prev_block), || format!("header with {} is not stored under its hash", what)); if what.starts_with("claimed") { ctx.ensure("field:claimed", what.contains("stored") || !known(v.hash), || "a header is stored under a claimed hash".into()); } }
                mcstore::rollback();
            }
            // the caller's bound on the number of forks
            for bound in 0..4 { mcstore::begin(); let r = store(h, bound); ctx.case(1); ctx.ensure("bound", r.is_ok() == (bound >= 2), || format!("fork bound {} with one chain: {:?}", bound, r)); mcstore::rollback(); }
            ctx.ensure("again", tx(|| BTCRelay::initialize(signed(7), h, 5).map(|_| ()).map_err(|e| e.error)).is_err(), || "the relay could be initialised twice".into());
            store(h, 100).unwrap();
        }
    });
    // start heights
    for check in [true, false] {
        let g = Genesis { vaults: 0, difficulty_check: true, ..Default::default() }.build();
        for h in [0, 1, 5, 2015, 2016, 2017, 4032, 700_000, 2016 * 400] {
            mcstore::isolated(g.clone(), || {
                let mut key = sp_core::twox_128(b"BTCRelay").to_vec();
                key.extend_from_slice(&sp_core::twox_128(b"DisableDifficultyCheck"));
                if !check { mcstore::put(&key, &true.encode()) }
                let b = btc::build(H256Le::zero(), h, &[]);
                for v in [3, 4] {
                    let want = v >= 4 && (!check || h % 2016 == 0);
                    mcstore::begin();
                    let r = tx(|| BTCRelay::initialize(signed(7), BlockHeader { version: v, ..b.header }, h).map(|_| ()).map_err(|e| e.error));
                    ctx.case(1);
                    ctx.ensure("initialize", r.is_ok() == want, || format!("initialise at height {} with version {} (difficulty checks: {}): {:?}", h, v, check, r));
                    mcstore::rollback();
                }
            });
        }
    }
    ctx.bound("every single-field change (version, parent, root, time, bits, nonce, claimed hash) of mined headers submitted as extrinsics");
}
fn bits(t: U256) -> u32 {
    let x = big(t);
    let mut size = (x.bits() as u32 + 7) / 8;
    let mut m = if size <= 3 { use num_traits::ToPrimitive; (&x << (8 * (3 - size))).to_u32().unwrap() } else { use num_traits::ToPrimitive; (&x >> (8 * (size - 3))).to_u32().unwrap() };
    if m & 0x0080_0000 != 0 { m >>= 8; size += 1 }
    m | (size << 24)
}
pub fn r02(ctx: &mut Ctx) {
    fields(ctx);
    let max = U256::from(0xffffu32) << 208;
    let normal = U256::from(0x05a3f4u32) << 200;
    let low = U256::from(0x123456u32) << 160;
    // (first target, seconds between headers, length, forks as (blocks below the tip, length))
    let mut cases: Vec<(U256, u32, u32, Vec<(u32, u32)>)> = vec![
        (normal, 600, 2013, vec![]), (normal, 600, 2014, vec![(1, 1), (5, 5)]), (normal, 600, 2015, vec![(3, 2), (1, 1)]), (max, 1300, 2013, vec![(2, 1)]), (low, 50, 2014, vec![(1, 1)]), (normal, 2500, 2015, vec![(2, 1)]), (normal, 3600, 2014, vec![]),
    ];
    if ctx.thorough() { cases.push((normal, 700, 4030, vec![(1, 1), (2100, 2099)])); cases.push((low, 900, 2016, vec![(2, 1), (10, 9)])); cases.push((max, 300, 4031, vec![(3, 2)])) }
    for (first, spacing, len, forks) in cases {
        match Pow::new(first, spacing, len, 7, &forks) {
            Err((k, e)) => ctx.fail(k, e, vec![format!("{} headers {} s apart, forks {:?}", len, spacing, forks)]),
            Ok(m) => {
                let d = ctx.pick(3, 4);
                let n = bfs(ctx, &m, d, 200_000);
                ctx.bound(format!("{}: up to {} more headers on any of the last branches, every target and time choice, {} states", m.start[0].0, d, n));
            }
        }
    }
    ctx.assume("across retargets the hash of a header is given instead of mined (BTCRelay::_store_block_header); mined headers go through the extrinsic");
    ctx.assume("a hash exactly equal to the target is not tried");
}
