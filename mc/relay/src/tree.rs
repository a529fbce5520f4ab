//! R01, R03: every tree of headers up to a bound in every order of submission, against a tree with a tip.
use bitcoin::types::BlockChain;
use btc_relay::RichBlockHeader;
use codec::{Decode, Encode};
use frame_support::{Blake2_128Concat, StorageHasher};
use kit::{System as Machine, *};
use mcstore::Map;
use rt::{btc::*, *};
use std::collections::BTreeMap;
use std::sync::Arc;

/// the reference: which header has which parent, and which header is the tip of the main chain
#[derive(Clone)]
pub struct Node { pub parent: usize, pub height: u32, pub para: u64, pub block: Arc<Block> }
#[derive(Clone)]
pub struct St { pub map: Map, pub nodes: Vec<Node>, pub tip: usize, pub now: u64 }
#[derive(Clone, Debug)]
pub enum Op { /** a new header on top of this one */ Submit(usize), /** this header again */ Again(usize), /** a header with an unknown parent */ Orphan, Time }
pub struct Relay { pub k: u32, pub para: u64, pub start: Vec<(String, St)>, pub max: usize, pub proofs: bool, pub time: bool }

impl St {
    pub fn on_main(&self) -> Vec<bool> { let mut m = vec![false; self.nodes.len()]; let mut i = self.tip; loop { m[i] = true; if i == 0 { break } i = self.nodes[i].parent } m }
    pub fn hash(&self, i: usize) -> H256Le { self.nodes[i].block.header.hash }
}
fn prefix(item: &str) -> Vec<u8> { let mut k = sp_core::twox_128(b"BTCRelay").to_vec(); k.extend_from_slice(&sp_core::twox_128(item.as_bytes())); k }
fn hk(x: &impl Encode) -> Vec<u8> { Blake2_128Concat::hash(&x.encode()) }
fn all<V: Decode>(item: &str) -> Vec<(Vec<u8>, V)> { let p = prefix(item); mcstore::keys_with_prefix(&p).iter().map(|k| (k[p.len()..].to_vec(), V::decode(&mut &mcstore::get(k).unwrap()[..]).expect("decode"))).collect() }
fn one<V: Decode>(item: &str, k: Vec<u8>) -> Option<V> { let mut p = prefix(item); p.extend(k); mcstore::get(&p).map(|v| V::decode(&mut &v[..]).expect("decode")) }
pub fn rich(h: H256Le) -> Option<RichBlockHeader<u64>> { one("BlockHeaders", hk(&h)) }
fn child(parent: &Node, n: usize) -> Block {
    let mut b = BlockBuilder::new();
    let t = payment(u32::from_le_bytes(parent.block.header.hash.to_bytes_le()[..4].try_into().unwrap()) ^ n as u32, vec![TransactionOutput::payment(1000 + n as i64, &addr(0x10))]);
    b.with_previous_hash(parent.block.header.hash).with_version(4).with_timestamp(1_600_000_000 + parent.height + 1).with_coinbase(&addr(0xc0 + n as u8), 50, parent.height + 1);
    b.add_transaction(t);
    b.mine(target()).unwrap()
}
fn store(h: bitcoin::types::BlockHeader) -> Result<(), String> { tx(|| BTCRelay::store_block_header(signed(99), h, 1000).map(|_| ()).map_err(|e| err_name(&e))) }

impl Relay {
    pub fn new(k: u32, para: u64, max: usize, proofs: bool, time: bool) -> Relay {
        let g = Genesis { bitcoin_confirmations: k, parachain_confirmations: para, vaults: 0, difficulty_check: true, ..Default::default() }.build();
        let (s, map) = mcstore::isolated(g, || {
            let p = prefix("DisableDifficultyCheck");
            mcstore::put(&p, &true.encode());
            let mut b = BlockBuilder::new();
            b.with_previous_hash(H256Le::zero()).with_version(4).with_timestamp(1_600_000_000).with_coinbase(&addr(0xcb), 50, 5);
            let b = b.mine(target()).unwrap();
            BTCRelay::initialize(signed(99), b.header, 5).unwrap();
            (Node { parent: 0, height: 5, para: 1, block: Arc::new(b) }, ())
        });
        let st = St { map, nodes: vec![s.0], tip: 0, now: 1 };
        Relay { k, para, start: vec![("initialised".into(), st)], max, proofs, time }
    }
    pub fn scenario(&mut self, name: &str, parents: &[usize]) {
        let mut s = self.start[0].1.clone();
        for p in parents { match self.step(&s, &Op::Submit(*p)) { Ok((n, _)) => s = n, Err(e) => { eprintln!("scenario {}: {:?}", name, e); break } } }
        self.start.push((name.into(), s));
    }
    /// the stored chains against the tree
    fn consistent(&self, s: &St) -> Result<(), (String, String)> {
        let e = |k: &str, m: String| Err((k.to_string(), m));
        let main = s.on_main();
        let n = s.nodes.len();
        if BTCRelay::get_best_block() != s.hash(s.tip) || BTCRelay::get_best_block_height() != s.nodes[s.tip].height {
            let at = (0..n).find(|i| s.hash(*i) == BTCRelay::get_best_block());
            return e("tip", format!("best block is header {:?} at height {}, must be header {} at height {}", at, BTCRelay::get_best_block_height(), s.tip, s.nodes[s.tip].height));
        }
        let index: BTreeMap<u32, BlockChain> = all::<BlockChain>("ChainsIndex").into_iter().map(|x| (x.1.chain_id, x.1)).collect();
        for (i, x) in s.nodes.iter().enumerate() {
            let Some(r) = rich(s.hash(i)) else { return e("lost", format!("header {} is not stored", i)) };
            if r.block_header != x.block.header || r.block_height != x.height || r.para_height != x.para { return e("header", format!("header {} is stored as {:?}", i, r)) }
            if (r.chain_id == 0) != main[i] { return e("chain-id", format!("header {} has chain {} although it is {}on the main chain", i, r.chain_id, if main[i] { "" } else { "not " })) }
            if one::<H256Le>("ChainsHashes", [hk(&r.chain_id), hk(&x.height)].concat()) != Some(s.hash(i)) { return e("position", format!("header {} is not at height {} of its chain {}", i, x.height, r.chain_id)) }
            match index.get(&r.chain_id) { Some(c) if c.start_height <= x.height && x.height <= c.max_height => (), c => return e("range", format!("header {} at height {} is outside of its chain {:?}", i, x.height, c)) }
            // neighbours in a chain are parent and child
            if i > 0 { let c = index.get(&r.chain_id).unwrap(); if x.height > c.start_height { let p = rich(s.hash(x.parent)).map(|p| p.chain_id); if p != Some(r.chain_id) { return e("gap", format!("the parent of header {} is in chain {:?} instead of {}", i, p, r.chain_id)) } } }
        }
        let count: usize = index.values().map(|c| (c.max_height + 1 - c.start_height.min(c.max_height + 1)) as usize).sum();
        let hashes = all::<H256Le>("ChainsHashes").len();
        if count != n || hashes != n { return e("ranges", format!("{} headers, {} chain entries, {} heights in chains", n, hashes, count)) }
        let mut order: Vec<(u32, u32)> = all::<u32>("Chains").into_iter().map(|(k, v)| (u32::decode(&mut &k[16..]).unwrap(), v)).collect();
        order.sort();
        if order.iter().enumerate().any(|(i, x)| x.0 != i as u32) || order.len() != index.len() || order[0].1 != 0 || order.iter().any(|x| !index.contains_key(&x.1)) { return e("order", format!("chains {:?} of {:?}", order, index)) }
        let heights: Vec<u32> = order.iter().skip(1).map(|x| index[&x.1].max_height).collect();
        if heights.windows(2).any(|w| w[0] < w[1]) { return e("fork-order", format!("forks are ordered by heights {:?}", heights)) }
        Ok(())
    }
    fn included(&self, s: &St, i: usize, c: Option<u32>, main: &[bool]) -> bool {
        let best = s.nodes[s.tip].height;
        let fork = (0..s.nodes.len()).filter(|i| !main[*i]).map(|i| s.nodes[i].height).max();
        main[i] && fork.map_or(true, |f| best >= f + self.k) && best + 1 >= s.nodes[i].height + c.unwrap_or(self.k) && s.nodes[i].para + self.para <= s.now
    }
    fn inclusion(&self, s: &St) -> Result<(), (String, String)> {
        let main = s.on_main();
        for i in 0..s.nodes.len() {
            for c in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6)] {
                let want = self.included(s, i, c, &main) || (c == Some(0) && self.included(s, i, Some(1), &main));
                let got = BTCRelay::verify_block_header_inclusion(s.hash(i), c);
                if got.is_ok() != want { return Err((if want { "not-included" } else { "included" }.into(), format!("header {} with {:?} confirmations: {:?}, expected to be {}included", i, c, got.map(|_| ()).map_err(|e| err_name(&e)), if want { "" } else { "not " }))) }
            }
        }
        Ok(())
    }
    /// proofs of every transaction and every way to forge one
    fn payments(&self, s: &St) -> Result<(), (String, String)> {
        let main = s.on_main();
        let pay = |p: FullTransactionProof| BTCRelay::get_and_verify_issue_payment::<i64>(p, addr(0x10)).map_err(|e| err_name(&e));
        for i in 1..s.nodes.len() {
            let b = &s.nodes[i].block;
            let good = proof(b, 1);
            let want = self.included(s, i, None, &main);
            let amount = b.transactions[1].outputs[0].value;
            let got = pay(good.clone());
            if got.as_ref().ok() != want.then_some(&amount) { return Err((if want { "proof-refused" } else { "proof-accepted" }.into(), format!("the proof of the payment of {} in header {} gives {:?}, expected {}", amount, i, got, if want { "the amount" } else { "a refusal" }))) }
            let j = if i == 1 { s.nodes.len() - 1 } else { i - 1 };
            let other = proof(&s.nodes[j].block, if s.nodes[j].block.transactions.len() > 1 { 1 } else { 0 });
            let forged: Vec<(&str, FullTransactionProof)> = vec![
                ("the coinbase proof of another block", FullTransactionProof { coinbase_proof: other.coinbase_proof.clone(), ..good.clone() }),
                ("the payment as its own coinbase", FullTransactionProof { coinbase_proof: good.user_tx_proof.clone(), ..good.clone() }),
                ("a payment from another block under this coinbase", FullTransactionProof { user_tx_proof: other.user_tx_proof.clone(), ..good.clone() }),
                ("a changed amount", { let mut g = good.clone(); g.user_tx_proof.transaction.outputs[0].value += 1; g }),
                ("another transaction under this proof", { let mut g = good.clone(); g.user_tx_proof.transaction = other.user_tx_proof.transaction.clone(); g.user_tx_proof.tx_encoded_len = other.user_tx_proof.tx_encoded_len; g }),
                ("both proofs moved to another header", { let mut g = good.clone(); g.user_tx_proof.merkle_proof.block_header = other.user_tx_proof.merkle_proof.block_header; g.coinbase_proof.merkle_proof.block_header = other.user_tx_proof.merkle_proof.block_header; g }),
                ("a header that was never stored", { let mut g = good.clone(); for h in [&mut g.user_tx_proof.merkle_proof.block_header, &mut g.coinbase_proof.merkle_proof.block_header] { h.nonce ^= 1; h.update_hash().unwrap(); } g }),
                ("a forged header hash", { let mut g = good.clone(); let h = s.hash(j); for x in [&mut g.user_tx_proof, &mut g.coinbase_proof] { x.merkle_proof.block_header.hash = h } g }),
                ("another transaction count", { let mut g = good.clone(); g.user_tx_proof.merkle_proof.transactions_count += 1; g }),
                ("another transaction count in both", { let mut g = good.clone(); g.user_tx_proof.merkle_proof.transactions_count += 2; g.coinbase_proof.merkle_proof.transactions_count += 2; g }),
                ("flipped flags", { let mut g = good.clone(); for f in g.user_tx_proof.merkle_proof.flag_bits.iter_mut() { *f = !*f } g }),
                ("a dropped hash", { let mut g = good.clone(); g.user_tx_proof.merkle_proof.hashes.pop(); g }),
                ("a shorter encoding bound", { let mut g = good.clone(); g.user_tx_proof.tx_encoded_len -= 1; g }),
                ("a shorter encoding bound for the coinbase", { let mut g = good.clone(); g.coinbase_proof.tx_encoded_len -= 1; g }),
                ("another coinbase transaction", { let mut g = good.clone(); g.coinbase_proof.transaction.outputs[0].value += 1; g }),
            ];
            for (what, p) in forged {
                if p == good { continue }
                // a complete valid proof for the other block may count if that block is included
                if let Ok(x) = pay(p.clone()) {
                    if p.user_tx_proof.transaction == good.user_tx_proof.transaction && p.user_tx_proof.merkle_proof == good.user_tx_proof.merkle_proof && p.coinbase_proof == good.coinbase_proof && want { continue }
                    return Err(("forged".into(), format!("accepted {} for the payment in header {} ({} satoshi)", what, i, x)));
                }
            }
        }
        Ok(())
    }
}
impl Machine for Relay {
    type State = St;
    type Op = Op;
    fn initial(&self) -> Vec<(String, St)> { self.start.clone() }
    fn ops(&self, s: &St) -> Vec<Op> {
        let mut v = vec![];
        if s.nodes.len() < self.max { v.extend((0..s.nodes.len()).map(Op::Submit)) }
        v.extend((0..s.nodes.len()).map(Op::Again));
        v.push(Op::Orphan);
        if self.time { v.push(Op::Time) }
        v
    }
    fn key(&self, s: &St) -> u128 {
        let hashes: Vec<_> = s.map.iter().filter(|(k, _)| k.starts_with(&sp_core::twox_128(b"BTCRelay"))).collect();
        let mut b = vec![];
        for (k, v) in hashes { b.extend_from_slice(&k[16..]); b.extend_from_slice(v) }
        if self.time { b.extend_from_slice(&s.now.encode()) }
        fp(&b)
    }
    fn step(&self, s: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut n = s.clone();
        let refused = |h: bitcoin::types::BlockHeader, what: &str| -> Result<(St, String), (String, String)> {
            let (r, map) = mcstore::isolated(s.map.clone(), || store(h));
            if r.is_ok() { return Err((format!("accepted:{}", what), format!("accepted {}", what))) }
            if map != s.map { return Err(("refused-but-changed".into(), format!("{} was refused but changed the state", what))) }
            Ok((s.clone(), format!("refused {}: {}", what, r.unwrap_err())))
        };
        match *op {
            Op::Again(i) => return refused(s.nodes[i].block.header, "a header twice"),
            Op::Orphan => {
                let o = build(H256Le::from_bytes_le(&[9; 32]), 6, &[]);
                return refused(o.header, "an orphan");
            }
            Op::Time => n.now += 1,
            Op::Submit(p) => {
                let c = s.nodes.iter().skip(1).filter(|x| x.parent == p).count();
                let b = child(&s.nodes[p], c);
                let (r, map) = mcstore::isolated(s.map.clone(), || store(b.header));
                if let Err(e) = r { return Err((format!("refused:{}", e), format!("a valid header on top of header {} was refused: {}", p, e))) }
                n.map = map;
                let height = s.nodes[p].height + 1;
                n.nodes.push(Node { parent: p, height, para: s.now, block: Arc::new(b) });
                let best = s.nodes[s.tip].height;
                if p == s.tip || height >= best + self.k { n.tip = n.nodes.len() - 1 }
            }
        }
        let (r, map) = mcstore::isolated(n.map.clone(), || {
            if let Op::Time = op { Security::set_active_block_number(n.now) }
            self.consistent(&n)?;
            self.inclusion(&n)?;
            if self.proofs { self.payments(&n)? }
            Ok(())
        });
        r?;
        n.map = map;
        let label = match op { Op::Time => "time passes", _ if n.tip == s.tip => "fork", _ if n.nodes[n.tip].parent == s.tip => "extends the main chain", _ => "reorganisation" };
        Ok((n, label.into()))
    }
}
fn run(ctx: &mut Ctx, m: &Relay, depth: usize, what: &str) {
    for (name, s) in &m.start { if let Err((k, e)) = mcstore::isolated(s.map.clone(), || m.consistent(s)).0 { ctx.fail(format!("initial:{}", k), e, vec![name.clone()]) } }
    let n = bfs(ctx, m, depth, 6_000_000);
    ctx.bound(format!("{}: {} confirmations, {} parachain confirmations, every order of up to {} submissions on any known header from {} starting trees, at most {} headers, {} distinct states", what, m.k, m.para, depth, m.start.len(), m.max, n));
    ctx.assume("headers are mined against an easy target; difficulty checks are R02's");
}
pub fn r01(ctx: &mut Ctx) {
    for k in 1..=3 {
        let mut m = Relay::new(k, 0, 14, false, false);
        // every history from scratch, and from forks of forks of similar length
        run(ctx, &m, ctx.pick(9, 11), "from scratch");
        m.start.clear();
        let base = Relay::new(k, 0, 14, false, false);
        m.start = base.start;
        m.scenario("two equal forks", &[0, 1, 0, 3, 0, 5]);
        m.scenario("fork of a fork", &[0, 1, 2, 0, 4, 5, 4, 7]);
        m.scenario("forks at different heights", &[0, 1, 2, 3, 1, 2, 6, 0, 8]);
        m.start.remove(0);
        run(ctx, &m, ctx.pick(5, 7), "from forks");
    }
}
pub fn r03(ctx: &mut Ctx) {
    for (k, p) in [(1, 0), (1, 1), (2, 0), (2, 2), (3, 1)] {
        let mut m = Relay::new(k, p, 12, true, true);
        m.scenario("two forks", &[0, 1, 0, 3, 2]);
        run(ctx, &m, ctx.pick(4, 6), "inclusion");
    }
    ctx.assume("every block holds a coinbase and one payment; other tree shapes are B03's");
}
