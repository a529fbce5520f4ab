use crate::conv::*;
use crate::spec::*;
use bitcoin::merkle::*;
use bitcoin::types::*;
use bitcoin::Address;
use kit::*;
use primitive_types::U256;
use std::collections::HashMap;

type H = [u8; 32];
#[derive(Default)]
struct Memo(HashMap<(H, H), H>);
impl Memo {
    fn pair(&mut self, a: H, b: H) -> H { *self.0.entry((a, b)).or_insert_with(|| { let mut v = a.to_vec(); v.extend(b); dsha(&v) }) }
}
/// all levels of the Bitcoin merkle tree (last element duplicated on odd levels)
fn levels(m: &mut Memo, leaves: &[H]) -> Vec<Vec<H>> {
    let mut l = vec![leaves.to_vec()];
    while l.last().unwrap().len() > 1 {
        let p = l.last().unwrap().clone();
        l.push(p.chunks(2).map(|c| m.pair(c[0], *c.get(1).unwrap_or(&c[0]))).collect());
    }
    l
}
fn width(n: u64, h: u32) -> u64 { (n + (1 << h) - 1) >> h }
fn height(n: u64) -> u32 { let mut h = 0; while width(n, h) > 1 { h += 1 } h }
/// CPartialMerkleTree(vTxid, vMatch)
fn build(l: &[Vec<H>], matched: &[bool]) -> (Vec<bool>, Vec<H>) {
    fn go(l: &[Vec<H>], mt: &[bool], h: usize, pos: usize, b: &mut Vec<bool>, o: &mut Vec<H>) {
        let any = mt.iter().enumerate().any(|(i, m)| *m && (i >> h) == pos);
        b.push(any);
        if h == 0 || !any { o.push(l[h][pos]) } else {
            go(l, mt, h - 1, pos * 2, b, o);
            if pos * 2 + 1 < l[h - 1].len() { go(l, mt, h - 1, pos * 2 + 1, b, o) }
        }
    }
    let (mut b, mut o) = (vec![], vec![]);
    go(l, matched, l.len() - 1, 0, &mut b, &mut o);
    (b, o)
}
/// CPartialMerkleTree::ExtractMatches
fn extract(m: &mut Memo, n: u32, bits: &[bool], hashes: &[H]) -> Option<(H, Vec<(u32, H)>)> {
    struct T<'a> { n: u64, bits: &'a [bool], hashes: &'a [H], bu: usize, hu: usize, out: Vec<(u32, H)> }
    fn go(t: &mut T, m: &mut Memo, h: u32, pos: u64) -> Option<H> {
        let b = *t.bits.get(t.bu)?; t.bu += 1;
        if h == 0 || !b {
            let x = *t.hashes.get(t.hu)?; t.hu += 1;
            if h == 0 && b { t.out.push((pos as u32, x)) }
            return Some(x)
        }
        let l = go(t, m, h - 1, pos * 2)?;
        let r = if pos * 2 + 1 < width(t.n, h - 1) { let r = go(t, m, h - 1, pos * 2 + 1)?; if r == l { return None } r } else { l };
        Some(m.pair(l, r))
    }
    if n == 0 || n > 4_000_000 / 240 || hashes.len() > n as usize || bits.len() < hashes.len() { return None }
    let mut t = T { n: n as u64, bits, hashes, bu: 0, hu: 0, out: vec![] };
    let r = go(&mut t, m, height(n as u64), 0)?;
    if (t.bu + 7) / 8 != (bits.len() + 7) / 8 || t.hu != hashes.len() { return None }
    Some((r, t.out))
}

fn mktx(k: usize) -> Tx { Tx { version: 2, ins: vec![In { src: Src::Out(h(k as u8), k as u32), script: vec![], seq: 0, wit: if k % 2 == 1 { vec![vec![k as u8]] } else { vec![] } }], outs: vec![Out { value: k as i64, script: vec![0x51; 40 + k % 7] }], lock: k as u32 } }
struct Blk { n: usize, txs: Vec<Tx>, imp: Vec<Transaction>, lens: Vec<u32>, lv: Vec<Vec<H>>, hd: BlockHeader }
fn blk(m: &mut Memo, n: usize) -> Blk {
    let txs: Vec<Tx> = (0..n).map(mktx).collect();
    let ids: Vec<H> = txs.iter().map(|t| dsha(&t.encode(false))).collect();
    let lv = levels(m, &ids);
    let mut hd = BlockHeader { version: 4, merkle_root: H256Le::from_bytes_le(&lv.last().unwrap()[0]), target: U256::from(0xffff) << 208, timestamp: 7, nonce: 3, ..Default::default() };
    hd.hash = H256Le::from_bytes_le(&[0xc7; 32]);
    Blk { n, imp: txs.iter().map(to_impl).collect(), lens: txs.iter().map(|t| t.encode(false).len() as u32).collect(), txs, lv, hd }
}

/// one (possibly forged) proof against the reference extraction and against the truth of the block
fn one(c: &mut Ctx, m: &mut Memo, b: &Blk, cnt: u32, bits: &[bool], hashes: &[H], tx: &Transaction, txlen: u32, txid: H, full: bool) {
    let want = extract(m, cnt, bits, hashes);
    // expensive construction only if something can go through, or exhaustively when asked
    if want.is_none() && !full { return }
    let p = PartialTransactionProof { transaction: tx.clone(), tx_encoded_len: txlen, merkle_proof: MerkleProof { block_header: b.hd, flag_bits: bits.to_vec(), transactions_count: cnt, hashes: hashes.iter().map(|x| H256Le::from_bytes_le(x)).collect() } };
    c.case(1);
    let what = || format!("block of {} txs, proof count {} bits {:?} hashes {} for tx {}", b.n, cnt, bits.iter().map(|x| *x as u8).collect::<Vec<_>>(), hashes.iter().map(|x| hex(&x[..3])).collect::<Vec<_>>().join(","), hex(&txid[..3]));
    let got = match guard(|| p.verify_proof()) { Ok(g) => g, Err(e) => { c.fail(format!("verify-panic:{}", panic_site(&e)), format!("{}: {}", what(), e), vec![what()]); return } };
    match (&got, &want) {
        (Ok(g), Some((root, ms))) => {
            let (gid, gpos) = (g.transaction_hash.to_bytes_le(), g.transaction_position);
            c.ensure("verify-root", g.extracted_root.to_bytes_le() == *root, what);
            c.ensure("verify-match", ms.contains(&(gpos, gid)) && gid == txid, what);
            c.ensure("verify-fields", g.tx_count == cnt && g.block_hash == b.hd.hash && g.transaction == *tx, what);
            if *root == b.lv.last().unwrap()[0] {
                let ok = (gpos as usize) < b.n && b.lv[0][gpos as usize] == txid;
                c.outcome(if ok { "accepted for the true root" } else { "forged" });
                c.ensure("merkle-soundness", ok, || format!("{} accepted at position {}", what(), gpos));
            } else { c.outcome("accepted for another root"); }
        }
        (Err(_), Some((_, ms))) => {
            // a well-formed proof that matches exactly this transaction must verify
            if ms.len() == 1 && ms[0].1 == txid { c.fail("verify-completeness", format!("{}: {:?}", what(), got.err()), vec![what()]) } else { c.outcome("no such match") }
        }
        (Ok(g), None) => {
            let forged = g.extracted_root.to_bytes_le() == b.lv.last().unwrap()[0];
            c.fail("merkle-malformed-accepted", format!("{} accepted (true root: {}) at position {}", what(), forged, g.transaction_position), vec![what()])
        }
        (Err(_), None) => c.outcome("malformed rejected"),
    }
}

pub fn b03(c: &mut Ctx) {
    let nmax = c.pick(40, 130);
    let mut sizes: Vec<usize> = (1..=nmax).collect();
    sizes.extend(c.pick(vec![64, 65, 127, 200], vec![255, 256, 257, 511, 513, 1000, 2049]));
    c.bound(format!("completeness: every transaction of blocks of 1..{} (+ {:?}) transactions, every subset for blocks of up to 7", nmax, &sizes[nmax..]));
    par(c, &sizes, |c, &n| {
        let mut m = Memo::default();
        let b = blk(&mut m, n);
        let block = Block { header: b.hd, transactions: b.imp.clone() };
        let ids: Vec<H256Le> = b.lv[0].iter().map(|x| H256Le::from_bytes_le(x)).collect();
        let root = guard(|| MerkleTree::compute_root(0, height(n as u64), n as u32, &ids).map(|h| h.to_bytes_le()).ok());
        c.eq("merkle-root", || format!("{} transactions", n), &root, &Ok(Some(b.lv.last().unwrap()[0])));
        c.eq("merkle-height", || format!("{}", n), &MerkleTree::compute_height(n as u32), &height(n as u64));
        for h in 0..=12 { c.eq("merkle-width", || format!("{} at {}", n, h), &(MerkleTree::compute_width(n as u32, h) as u64), &width(n as u64, h)); }
        let masks: Vec<Vec<bool>> = if n <= 7 { (0..1u32 << n).map(|k| (0..n).map(|i| k >> i & 1 == 1).collect()).collect() } else { (0..n).map(|i| (0..n).map(|j| i == j).collect()).collect() };
        for mask in masks {
            let inc: Vec<H256Le> = ids.iter().zip(&mask).filter(|x| *x.1).map(|x| *x.0).collect();
            let (bits, hs) = build(&b.lv, &mask);
            let want = MerkleProof { block_header: b.hd, flag_bits: bits.clone(), transactions_count: n as u32, hashes: hs.iter().map(|x| H256Le::from_bytes_le(x)).collect() };
            c.case(1);
            let got = guard(|| block.merkle_proof(&inc).ok());
            if got != Ok(Some(want)) { c.fail("proof-construction", format!("{} transactions, subset {:?}", n, mask), vec![]) }
            if inc.len() == 1 {
                let i = mask.iter().position(|x| *x).unwrap();
                one(c, &mut m, &b, n as u32, &bits, &hs, &b.imp[i], b.lens[i], b.lv[0][i], true);
                // the length bound applies to the witness-free encoding
                for (d, ok) in [(0i64, true), (1, true), (1000, true), (-1, false), (-(b.lens[i] as i64), false)] {
                    let p = PartialTransactionProof { transaction: b.imp[i].clone(), tx_encoded_len: (b.lens[i] as i64 + d) as u32, merkle_proof: block.merkle_proof(&inc).unwrap() };
                    c.transitions += 1;
                    c.ensure("proof-length-bound", guard(|| p.verify_proof().is_ok()) == Ok(ok), || format!("tx {} of {}, bound {} of {}", i, n, b.lens[i] as i64 + d, b.lens[i]));
                }
                // any other transaction with the same proof is refused
                for j in (0..n).filter(|j| *j != i).take(4) { one(c, &mut m, &b, n as u32, &bits, &hs, &b.imp[j], b.lens[j], b.lv[0][j], true) }
            } else if inc.len() > 1 { for i in 0..n { one(c, &mut m, &b, n as u32, &bits, &hs, &b.imp[i], b.lens[i], b.lv[0][i], true) } }
        }
        let _ = &b.txs;
    });
    c.sample("block of 5 transactions: proofs for every subset of the transactions equal CPartialMerkleTree's");
    // the block builder commits to its transactions
    for n in 1..=9usize {
        let mut bb = BlockBuilder::new();
        bb.with_coinbase(&Address::default(), 50, 3).with_timestamp(1588813835).with_previous_hash(H256Le::from_bytes_le(&h(1)));
        for k in 1..n { bb.add_transaction(to_impl(&mktx(k))); }
        let target = U256::MAX;
        let blk = guard(|| bb.mine(target).unwrap());
        c.case(1);
        if let Ok(b) = blk {
            let mut m = Memo::default();
            let ids: Vec<H> = b.transactions.iter().map(|t| dsha(&from_impl(t).encode(false))).collect();
            let l = levels(&mut m, &ids);
            c.ensure("builder-root", b.header.merkle_root.to_bytes_le() == l.last().unwrap()[0] && b.transactions.len() == n && b.header.hash == b.header.hash().unwrap() && b.transactions[0].is_coinbase() && b.header.timestamp == 1588813835 && b.header.hash_prev_block == H256Le::from_bytes_le(&h(1)) && b.header.version == 4, || format!("block builder with {} transactions", n));
        } else { c.fail("builder-root", format!("block builder with {} transactions: {:?}", n, blk.err()), vec![]) }
    }
    // soundness, exhaustive: all counts, flag strings, hash strings over the tree's own nodes and a foreign hash
    let full_n = c.pick(4usize, 5);
    let mut jobs = vec![];
    for n in 1..=full_n { for cnt in (0..=(2 * n as u32 + 2)).chain([16_666, 16_667, u32::MAX]) { for nb in 0..=8usize { jobs.push((n, cnt, nb)) } } }
    c.bound(format!("soundness: blocks of 1..{} transactions x transaction counts 0..2n+2 (and 16666, 16667, 2^32-1) x all flag strings of 0..8 bits x all hash strings of length 0..4 over all tree nodes plus one foreign hash x every transaction of the block plus a foreign one", full_n));
    c.bound("soundness for blocks of 5..12: every single and double mutation of every valid proof");
    par(c, &jobs, |c, &(n, cnt, nb)| {
        let mut m = Memo::default();
        let b = blk(&mut m, n);
        let foreign = mktx(77); let fid = dsha(&foreign.encode(false)); let flen = foreign.encode(false).len() as u32; let fimp = to_impl(&foreign);
        let mut nodes: Vec<H> = b.lv.concat(); nodes.push(fid); nodes.sort(); nodes.dedup();
        for k in 0..1u32 << nb {
            let bits: Vec<bool> = (0..nb).map(|i| k >> i & 1 == 1).collect();
            for nh in 0..=4usize { if nh > nb + 1 { continue }
                tuples(nodes.len(), nh, |v| {
                    let hs: Vec<H> = v.iter().map(|i| nodes[*i]).collect();
                    // malformed in the reference: one transaction suffices; otherwise every transaction
                    let w = extract(&mut m, cnt, &bits, &hs);
                    if let Some((_, ms)) = &w {
                        for i in 0..n { if ms.iter().any(|x| x.1 == b.lv[0][i]) || i == 0 { one(c, &mut m, &b, cnt, &bits, &hs, &b.imp[i], b.lens[i], b.lv[0][i], true) } }
                        if ms.iter().any(|x| x.1 == fid) { one(c, &mut m, &b, cnt, &bits, &hs, &fimp, flen, fid, true) }
                    } else {
                        // pick the transaction most likely to be accepted: the one whose id is the last leaf-like hash
                        let i = hs.iter().rev().find_map(|x| b.lv[0].iter().position(|y| y == x)).unwrap_or(0);
                        one(c, &mut m, &b, cnt, &bits, &hs, &b.imp[i], b.lens[i], b.lv[0][i], true)
                    }
                });
            }
        }
    });
    let sizes: Vec<usize> = (5..=c.pick(9, 12)).collect();
    let jobs: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..*n).map(move |i| (*n, i))).collect();
    par(c, &jobs, |c, &(n, i)| {
        let mut m = Memo::default();
        let b = blk(&mut m, n);
        let mask: Vec<bool> = (0..n).map(|j| i == j).collect();
        let (bits, hs) = build(&b.lv, &mask);
        let mut nodes: Vec<H> = b.lv.concat(); nodes.push([0x99; 32]); nodes.sort(); nodes.dedup();
        let muts = |s: &(u32, Vec<bool>, Vec<H>)| -> Vec<(u32, Vec<bool>, Vec<H>)> {
            let mut v = vec![];
            for k in 0..s.1.len() { let mut x = s.clone(); x.1[k] ^= true; v.push(x); let mut x = s.clone(); x.1.remove(k); v.push(x) }
            for f in [false, true] { let mut x = s.clone(); x.1.push(f); v.push(x); let mut x = s.clone(); x.1.extend([f; 8]); v.push(x) }
            for k in 0..s.2.len() { for nd in &nodes { if *nd != s.2[k] { let mut x = s.clone(); x.2[k] = *nd; v.push(x) } } let mut x = s.clone(); x.2.remove(k); v.push(x); let mut x = s.clone(); let y = x.2[k]; x.2.insert(k, y); v.push(x) }
            for d in 1..=(2 * n as u32 + 2) { if d != s.0 { let mut x = s.clone(); x.0 = d; v.push(x) } }
            v
        };
        let base = (n as u32, bits, hs);
        for a in muts(&base) {
            one(c, &mut m, &b, a.0, &a.1, &a.2, &b.imp[i], b.lens[i], b.lv[0][i], true);
            for d in muts(&a) { for j in [i, n - 1] { one(c, &mut m, &b, d.0, &d.1, &d.2, &b.imp[j], b.lens[j], b.lv[0][j], j == i) } }
        }
    });
}
