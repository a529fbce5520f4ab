use crate::conv::*;
use crate::spec::*;
use bitcoin::formatter::TryFormat;
use bitcoin::parser::{parse_block_header, parse_compact_uint, parse_transaction};
use bitcoin::types::*;
use bitcoin::merkle::MerkleProof;
use kit::*;
use primitive_types::{H256, U256};

pub fn fmt<T: TryFormat>(t: &T) -> Vec<u8> { let mut v = vec![]; t.try_format(&mut v).expect("unbounded"); v }

fn describe(t: &Tx) -> String {
    format!("tx v{} ins={:?} outs={:?} lock={}", t.version,
        t.ins.iter().map(|i| format!("{:?}/script{}/seq{}/wit{:?}", match &i.src { Src::Out(_, n) => format!("out#{}", n), Src::Coinbase(h) => format!("cb{:?}", h) }, i.script.len(), i.seq, i.wit.iter().take(4).map(|w| w.len()).collect::<Vec<_>>())).take(4).collect::<Vec<_>>(),
        t.outs.iter().map(|o| format!("{}:{}", o.value, o.script.len())).take(4).collect::<Vec<_>>(), t.lock)
}

pub fn check_tx(c: &mut Ctx, t: &Tx, bounds_all: bool) {
    let d = || describe(t);
    let x = to_impl(t);
    let want = t.encode(true);
    let base = t.encode(false);
    let r = guard(|| (fmt(&x), x.tx_id().to_bytes_le(), x.hash().to_bytes_le(), x.size_no_witness()));
    let (enc, txid, hash, size) = match r { Ok(v) => v, Err(p) => { c.fail("encode-panic", format!("{}: {}", d(), p), vec![d()]); return } };
    c.case(6);
    c.eq("tx-encoding", d, &hex(&enc), &hex(&want));
    if enc != want { c.fail("tx-encoding", format!("{} encodes to {} bytes, specification {}", d(), enc.len(), want.len()), vec![d()]) }
    c.eq("txid", d, &txid, &dsha(&base));
    c.eq("wtxid", d, &hash, &dsha(&want));
    c.eq("size-no-witness", d, &size, &base.len());
    // bounded identifier: succeeds exactly when the witness-free encoding fits
    let n = base.len() as u32;
    let bs: Vec<u32> = if bounds_all { (0..=n + 2).collect() } else { vec![0, 1, n - 1, n, n + 1, u32::MAX] };
    for b in bs {
        let got = guard(|| x.tx_id_bounded(b).ok().map(|h| h.to_bytes_le()));
        let want = Ok(if b >= n { Some(dsha(&base)) } else { None });
        c.eq("bounded-txid", || format!("{} bound {} of {}", d(), b, n), &got, &want);
        c.transitions += 1;
    }
    // cross-check with rust-bitcoin's encoder where it can represent the transaction
    if !t.ins.is_empty() && t.outs.iter().all(|o| o.value >= 0) {
        use rb::consensus::Decodable;
        match rb::Transaction::consensus_decode_from_finite_reader(&mut &want[..]) {
            Ok(r) => { c.eq("txid-rust-bitcoin", d, &txid, rb::hashes::Hash::as_byte_array(&r.txid())); c.outcome("rust-bitcoin agrees to decode"); }
            Err(_) => { c.outcome("rust-bitcoin refuses"); }
        }
    }
    // decode
    let in_domain = (t.version == 1 || t.version == 2)
        && !(t.ins.is_empty() && !t.outs.is_empty())
        && t.outs.iter().all(|o| o.script.len() <= 10_000)
        && t.ins.iter().all(|i| match i.src {
            Src::Coinbase(Some(_)) => t.version == 2 && i.script.len() <= 100,
            Src::Coinbase(None) => t.version == 1 && i.script.len() <= 100,
            Src::Out(h, _) => h != [0; 32],
        });
    if in_domain {
        c.transitions += 1;
        match guard(|| parse_transaction(&want)) {
            Ok(Ok(y)) => { c.outcome("decoded"); if y != x { c.fail("tx-roundtrip", format!("{} decodes to {}", d(), describe(&from_impl(&y))), vec![d()]) } }
            other => c.fail("tx-roundtrip", format!("{} does not decode: {:?}", d(), other.map(|r| r.map(|_| ()))), vec![d()]),
        }
    } else { c.outcome("encode only") }
}

pub fn b01(c: &mut Ctx) {
    c.bound("inputs 0..3 (and 252..254, 300), outputs 0..3 (and 252..254), scripts/witness items at every compact-size boundary up to 65537, 17 coinbase heights, 5 lock times, 7 versions; every product of the reduced alphabets");
    let locks = [0u32, 1, 499_999_999, 500_000_000, u32::MAX];
    let versions = [1i32, 2, 0, 3, -1, i32::MAX, i32::MIN];
    // (a) one input x one output, medium alphabets
    let ins = inputs(1); let outs = outputs(1);
    let mut work: Vec<Vec<Tx>> = vec![];
    for i in &ins { let mut v = vec![]; for (k, o) in outs.iter().enumerate() {
        for vs in [1, 2] { v.push(Tx { version: vs, ins: vec![i.clone()], outs: vec![o.clone()], lock: locks[k % 5] }); }
    } work.push(v); }
    // (b) all versions x lock times x shapes over the small alphabet, two inputs and up to two outputs
    let i0 = inputs(0); let o0 = outputs(0);
    let step = c.pick(3, 1);
    for (ai, a) in i0.iter().enumerate() { for (bi, b) in i0.iter().enumerate() {
        if (ai * 31 + bi) % step != 0 { continue }
        let mut v = vec![];
        for (oi, o) in o0.iter().enumerate() {
            let vs = versions[(ai + bi + oi) % 7]; let lock = locks[(ai + 2 * bi + oi) % 5];
            v.push(Tx { version: vs, ins: vec![a.clone(), b.clone()], outs: vec![o.clone()], lock });
            v.push(Tx { version: 1 + (oi as i32 % 2), ins: vec![a.clone(), b.clone()], outs: vec![], lock });
            v.push(Tx { version: 2, ins: vec![a.clone(), b.clone()], outs: vec![o.clone(), o0[(oi + 1) % o0.len()].clone()], lock });
        }
        work.push(v);
    } }
    for vs in versions { for lock in locks { work.push(vec![
        Tx { version: vs, ins: vec![], outs: vec![], lock },
        Tx { version: vs, ins: vec![], outs: vec![o0[1].clone()], lock },
        Tx { version: vs, ins: vec![i0[0].clone()], outs: vec![o0[1].clone()], lock },
        Tx { version: vs, ins: vec![i0[2].clone()], outs: vec![o0[1].clone()], lock }]); } }
    // (c) long scripts, long witnesses, many inputs/outputs
    for i in inputs(2) { for vs in [1, 2] { work.push(vec![Tx { version: vs, ins: vec![i.clone()], outs: vec![o0[0].clone()], lock: 0 }]); } }
    for o in outputs(2) { work.push(vec![Tx { version: 2, ins: vec![i0[0].clone()], outs: vec![o], lock: 0 }]); }
    for n in [3usize, 251, 252, 253, 254, 255, 256, 300] { for m in [1usize, 3, 252, 253, 254] { for wit in 0..3 {
        let mut is = vec![inputs(0)[0].clone(); n];
        if wit > 0 { is[(n - 1) * (wit - 1)].wit = vec![vec![1, 2, 3]]; }
        for (k, i) in is.iter_mut().enumerate() { i.seq = k as u32; if let Src::Out(_, ref mut x) = i.src { *x = k as u32 } }
        work.push(vec![Tx { version: 2, ins: is, outs: (0..m).map(|k| Out { value: k as i64, script: vec![k as u8; k % 5] }).collect(), lock: 17 }]);
    } } }
    let huge: Vec<usize> = c.pick(vec![65535, 65536], vec![65534, 65535, 65536, 65537]);
    for n in huge { work.push(vec![Tx { version: 2, ins: vec![i0[0].clone()], outs: (0..n).map(|k| Out { value: k as i64, script: vec![] }).collect(), lock: 0 }]); }
    c.sample(describe(&work[0][0])); c.sample(describe(&work[work.len() / 2][0]));
    par(c, &work, |c, v| for (k, t) in v.iter().enumerate() { check_tx(c, t, k == 0 && t.ins.len() < 3 && t.encode(false).len() < 400); });
    // witness independence of the txid: all witness assignments over two inputs
    let w: Vec<Vec<Vec<u8>>> = vec![vec![], vec![vec![]], vec![vec![1]], vec![vec![1], vec![2; 33]], vec![vec![9; 253]]];
    let basetx = Tx { version: 2, ins: vec![i0[0].clone(), i0[1].clone()], outs: vec![o0[1].clone()], lock: 5 };
    let mut ids = std::collections::HashSet::new();
    for a in &w { for b in &w { let mut t = basetx.clone(); t.ins[0].wit = a.clone(); t.ins[1].wit = b.clone(); ids.insert(to_impl(&t).tx_id().to_bytes_le()); c.case(1); } }
    c.eq("txid-witness", || "distinct txids over 25 witness assignments".into(), &ids.len(), &1);
    compact_ints(c);
    headers(c);
    hashes(c);
    builders(c);
    proofs(c);
}

fn compact_ints(c: &mut Ctx) {
    // through Vec<u8> lengths the encoder is exercised above; the decoder on every form
    let mut vals: Vec<u64> = (0..=0x300).collect();
    vals.extend(0xff00..=0x10100u64);
    for k in [16u32, 17, 24, 31, 32, 33, 40, 48, 56, 63] { for d in -3i64..=3 { vals.push(((1u64 << k) as i128 + d as i128) as u64); } }
    vals.extend([u64::MAX, u64::MAX - 1]);
    for v in vals {
        let mut b = vec![];
        compact(&mut b, v);
        for extra in 0..3usize {
            let mut e = b.clone(); e.extend(vec![0xab; extra]);
            let got = guard(|| parse_compact_uint(&e).ok());
            c.eq("compact-decode", || format!("compact size {} = {}", v, hex(&e)), &got, &Ok(Some((v, b.len()))));
            c.case(1);
        }
    }
    // encoder on byte vectors: lengths around the two- and three-byte boundaries, complete in the thorough tier
    let mut lens: Vec<usize> = (0..600).collect();
    lens.extend(65000..66000);
    if c.thorough() { lens = (0..=70_000).collect(); }
    lens.extend([1 << 20, (1 << 24) + 1]);
    par(c, &lens, |c, &n| {
        let s = vec![0x5au8; n];
        let mut want = vec![]; compact(&mut want, n as u64); want.extend(&s);
        let got = guard(|| fmt(&s));
        c.case(1);
        c.ensure("compact-encode", got.as_ref() == Ok(&want), || format!("byte vector of length {}: prefix {}", n, got.as_ref().map(|g| hex(&g[..g.len().min(10)])).unwrap_or_else(|e| e.clone())));
    });
}

fn headers(c: &mut Ctx) {
    let bits = [0x1d00ffffu32, 0x1b04864c, 0x170ed0eb, 0x207fffff, 0x03123456, 0x04123456, 0x05009234, 0x02008000, 0x01120000, 0x20123456];
    let us = [0u32, 1, 0x80, 0xff00, 0x7fff_ffff, u32::MAX];
    for b in bits { for v in [0i32, 1, 2, 3, 4, 5, 0x2000_0000, -1, i32::MIN, i32::MAX] { for t in us { for n in us {
        let (ph, mr) = (h((t % 251) as u8), h((n % 249) as u8 ^ 0x55));
        let mut raw = v.to_le_bytes().to_vec(); raw.extend(ph); raw.extend(mr); raw.extend(t.to_le_bytes()); raw.extend(b.to_le_bytes()); raw.extend(n.to_le_bytes());
        let what = || format!("header {}", hex(&raw));
        let target = crate::b04::spec_decode(b).unwrap();
        let want = BlockHeader { version: v, hash_prev_block: H256Le::from_bytes_le(&ph), merkle_root: H256Le::from_bytes_le(&mr), timestamp: t, target, nonce: n, hash: H256Le::from_bytes_le(&dsha(&raw)) };
        c.case(6);
        let got = guard(|| BlockHeader::from_bytes(&raw).ok());
        c.eq("header-decode", what, &got, &Ok(Some(want)));
        let got = guard(|| parse_block_header(&raw).ok());
        c.eq("header-decode", what, &got, &Ok(Some(want)));
        let got = guard(|| BlockHeader::from_hex(raw.iter().map(|b| format!("{:02x}", b)).collect::<String>()).ok());
        c.eq("header-decode-hex", what, &got, &Ok(Some(want)));
        c.eq("header-encode", what, &guard(|| fmt(&want)), &Ok(raw.clone()));
        c.eq("header-hash", what, &guard(|| want.hash().ok().map(|h| h.to_bytes_le())), &Ok(Some(dsha(&raw))));
        let mut m = want; m.hash = H256Le::zero();
        let r = guard(|| m.update_hash().ok());
        c.eq("header-update-hash", what, &r, &Ok(Some(want.hash)));
        c.eq("header-update-hash", what, &m, &want);
        c.eq("header-version", what, &want.ensure_version().is_ok(), &(v >= 4));
        c.outcome("header");
    } } } }
    for l in (0..=100).filter(|l| *l != 80) {
        c.case(1);
        c.ensure("header-length", guard(|| BlockHeader::from_bytes(vec![1u8; l]).is_err()) == Ok(true), || format!("header of {} bytes accepted", l));
    }
}

fn hashes(c: &mut Ctx) {
    let mut v: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32]];
    for i in 0..32 { for b in [1u8, 0x80, 0xff] { let mut x = [0; 32]; x[i] = b; v.push(x); let mut y = [0xff; 32]; y[i] = b ^ 0xff; v.push(y); } }
    let mut seq = [0u8; 32]; for i in 0..32 { seq[i] = i as u8 + 1 } v.push(seq);
    for x in &v {
        let what = || hex(x);
        let mut rev = *x; rev.reverse();
        c.case(10);
        let r = guard(|| {
            let le = H256Le::from_bytes_le(x);
            let be = H256Le::from_bytes_be(&rev);
            (le == be, le.to_bytes_le() == *x, le.to_bytes_be() == rev, le.to_hex_le() == hex(x), le.to_hex_be() == hex(&rev),
             H256Le::from_hex_le(&hex(x)) == le, H256Le::from_hex_be(&hex(&rev)) == le, le.as_u256() == U256::from_little_endian(x),
             le.is_zero() == (*x == [0; 32]), le.sha256d().to_bytes_le() == dsha(x))
        });
        c.eq("hash-byte-order", what, &r, &Ok((true, true, true, true, true, true, true, true, true, true)));
        for y in v.iter().take(60) {
            let (a, b) = (H256Le::from_bytes_le(x), H256::from_slice(y));
            let mut yr = *y; yr.reverse();
            c.case(2);
            c.ensure("hash-equality", (a == b) == (*x == yr) && (b == a) == (*x == yr), || format!("{} vs {}", hex(x), hex(y)));
        }
        let a = H256Le::from_bytes_le(x);
        let disp = format!("{}", a) == format!("0x{}", hex(&rev)) && format!("{:x}", a) == hex(&rev);
        c.ensure("hash-display", disp, || hex(x));
    }
    macro_rules! ints { ($($t:ty),*) => { $( for x in [<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, 0x5a as $t] {
        let mut w = [0u8; 32]; let b = x.to_le_bytes(); w[..b.len()].copy_from_slice(&b);
        c.case(2);
        c.eq("hash-from-integer", || format!("{}", x), &H256Le::from(x).to_bytes_le(), &w);
        c.eq("int-encoding", || format!("{}", x), &fmt(&x), &b.to_vec());
    } )* } }
    ints!(u8, u16, u32, u64, i8, i16, i32, i64);
    c.eq("bool-encoding", || "bools".into(), &(fmt(&true), fmt(&false)), &(vec![1], vec![0]));
}

fn builders(c: &mut Ctx) {
    // builders reproduce what they were given
    for i in inputs(0) {
        let want = to_impl(&Tx { version: 7, ins: vec![i.clone()], outs: vec![], lock: 0 }).inputs[0].clone();
        let got = guard(|| { let mut b = TransactionInputBuilder::new(); b.with_source(want.source.clone()).with_script(&i.script).with_sequence(i.seq); for w in &i.wit { b.add_witness(w); } b.build() });
        c.case(1);
        c.ensure("input-builder", got.as_ref() == Ok(&want), || format!("{:?}", want));
        for lock in [0u32, 499_999_999, 500_000_000, u32::MAX] { for ver in [1, 2] {
            let o = to_impl(&Tx { version: 1, ins: vec![], outs: outputs(0), lock: 0 }).outputs;
            let got = guard(|| { let mut b = TransactionBuilder::new(); b.with_version(ver).add_input(want.clone()).add_input(want.clone()); for x in &o { b.add_output(x.clone()); } b.with_block_height(lock); let x = b.build(); b.with_locktime(lock); (x, b.build()) });
            let t = |l| Transaction { version: ver, inputs: vec![want.clone(), want.clone()], outputs: o.clone(), lock_at: l };
            c.case(2);
            c.ensure("tx-builder", got == Ok((t(LockTime::BlockHeight(lock)), t(LockTime::Time(lock)))), || format!("builder v{} lock {}", ver, lock));
            c.ensure("coinbase-detection", t(LockTime::Time(0)).is_coinbase() == false, || "two inputs".into());
            let one = Transaction { version: ver, inputs: vec![want.clone()], outputs: o.clone(), lock_at: LockTime::Time(lock) };
            c.ensure("coinbase-detection", one.is_coinbase() == matches!(want.source, TransactionInputSource::Coinbase(_)), || format!("{:?}", want.source));
        } }
    }
    c.ensure("coinbase-detection", !Transaction::default().is_coinbase(), || "no inputs".into());
}

fn proofs(c: &mut Ctx) {
    // merkle proof encoding: header | count | hashes | packed flag bits
    let hd = BlockHeader::from_bytes([&4i32.to_le_bytes()[..], &h(3), &h(4), &5u32.to_le_bytes(), &0x1d00ffffu32.to_le_bytes(), &7u32.to_le_bytes()].concat()).unwrap();
    let raw_hd = fmt(&hd);
    for nh in [0usize, 1, 2, 12, 252, 253, 254] { for nf in (0..40).chain([2016, 2024, 2032]) { for cnt in [0u32, 1, 7, 0xffff, u32::MAX] { for pat in 0..4u32 {
        let flags: Vec<bool> = (0..nf).map(|i| match pat { 0 => false, 1 => true, 2 => i % 2 == 0, _ => i % 3 == 0 || i + 1 == nf }).collect();
        let p = MerkleProof { block_header: hd, flag_bits: flags.clone(), transactions_count: cnt, hashes: (0..nh).map(|i| H256Le::from_bytes_le(&h(i as u8))).collect() };
        let mut w = raw_hd.clone(); w.extend(cnt.to_le_bytes()); compact(&mut w, nh as u64); for i in 0..nh { w.extend(h(i as u8)) }
        let mut fb = vec![0u8; (nf + 7) / 8]; for (i, f) in flags.iter().enumerate() { if *f { fb[i / 8] |= 1 << (i % 8) } }
        compact(&mut w, fb.len() as u64); w.extend(&fb);
        c.case(2);
        let what = || format!("merkle proof with {} hashes, {} flags (pattern {}), count {}", nh, nf, pat, cnt);
        let got = guard(|| fmt(&p));
        c.ensure("proof-encoding", got.as_ref() == Ok(&w), || format!("{}: {}", what(), got.as_ref().map(|g| hex(g)).unwrap_or_default()));
        let mut padded = p.clone(); while padded.flag_bits.len() % 8 != 0 { padded.flag_bits.push(false) }
        let got = guard(|| MerkleProof::parse(&w).ok());
        c.ensure("proof-roundtrip", got == Ok(Some(padded)), what);
    } } } }
}
