use crate::b01::fmt;
use crate::conv::*;
use crate::spec::*;
use bitcoin::merkle::MerkleProof;
use bitcoin::parser::*;
use bitcoin::types::*;
use bitcoin::{Address, Script};
use kit::*;

pub fn tx_bytes(c: &mut Ctx, b: &[u8]) {
    let mut r = Rd::new(b);
    let want = r.tx();
    c.case(1);
    let what = || format!("transaction bytes {}", hex(b));
    match guard(|| parse_transaction(b)) {
        Err(p) => c.fail(format!("parse-panic:{}", panic_site(&p)), format!("{}: {}", what(), p), vec![hex(b)]),
        Ok(got) => {
            match (&got, &want) {
                (Ok(g), Ok(w)) => {
                    c.outcome(if r.canonical { "accepted" } else { "accepted (non-canonical lengths)" });
                    if from_impl(g) != *w || *g != to_impl(w) { c.fail("parse-value", format!("{}: got {:?} want {:?}", what(), from_impl(g), w), vec![hex(b)]) }
                    if r.canonical {
                        c.transitions += 1;
                        match guard(|| fmt(g)) { Ok(e) if e == b[..r.p] => {}, e => c.fail("reencode", format!("{}: re-encodes to {:?}", what(), e.map(|x| hex(&x))), vec![hex(b)]) }
                    }
                }
                (Err(_), Err(_)) => c.outcome("rejected"),
                (Ok(_), Err(_)) => c.fail("parse-accepts-bad", what(), vec![hex(b)]),
                (Err(e), Ok(_)) => c.fail("parse-rejects-good", format!("{}: {:?}", what(), e), vec![hex(b)]),
            }
        }
    }
}

fn spec_proof(b: &[u8]) -> Result<(u32, Vec<[u8; 32]>, Vec<bool>), ()> {
    let mut r = Rd::new(b);
    let hd = r.take(80)?;
    if crate::b04::spec_decode(u32::from_le_bytes(hd[72..76].try_into().unwrap())).is_none() { return Err(()) }
    let n = r.u32()?;
    let k = r.compact()?;
    let mut hs = vec![];
    for _ in 0..k { hs.push(r.take(32)?.try_into().unwrap()) }
    let k = r.compact()?;
    let mut f = vec![];
    for _ in 0..k { let x = r.u8()?; for i in 0..8 { f.push(x & (1 << i) != 0) } }
    Ok((n, hs, f))
}
pub fn proof_bytes(c: &mut Ctx, b: &[u8]) {
    c.case(1);
    let want = spec_proof(b);
    let what = || format!("proof bytes {}", hex(b));
    match guard(|| MerkleProof::parse(b)) {
        Err(p) => c.fail(format!("parse-panic:{}", panic_site(&p)), format!("{}: {}", what(), p), vec![hex(b)]),
        Ok(got) => {
            let g = got.ok().map(|p| (p.transactions_count, p.hashes.iter().map(|h| h.to_bytes_le()).collect::<Vec<_>>(), p.flag_bits.clone(), p.block_header));
            if g.as_ref().map(|x| (x.0, x.1.clone(), x.2.clone())) != want.clone().ok() { c.fail("proof-parse", format!("{}: {:?} vs {:?}", what(), g.is_some(), want.is_ok()), vec![hex(b)]) }
            if let Some(g) = g { c.ensure("proof-header", g.3.hash.to_bytes_le() == dsha(&b[..80]), what); }
            c.outcome(if want.is_ok() { "proof accepted" } else { "proof rejected" });
        }
    }
}
pub fn header_bytes(c: &mut Ctx, b: &[u8]) {
    c.case(1);
    let want = b.len() == 80 && crate::b04::spec_decode(u32::from_le_bytes(b[72..76].try_into().unwrap())).is_some();
    match guard(|| BlockHeader::from_bytes(b)) {
        Err(p) => c.fail(format!("parse-panic:{}", panic_site(&p)), format!("header {}: {}", hex(b), p), vec![hex(b)]),
        Ok(g) => { c.ensure("header-parse", g.is_ok() == want, || format!("header {}: {:?}", hex(b), g)); c.outcome(if want { "header accepted" } else { "header rejected" }); }
    }
    if b.len() < 80 { c.ensure("header-parse", guard(|| parse_block_header(b).is_err()) == Ok(true), || format!("short header {}", hex(b))); }
}

fn corpus() -> Vec<Vec<u8>> {
    let cb = |v: i32, hgt: Option<u32>, l: usize| Tx { version: v, ins: vec![In { src: Src::Coinbase(hgt), script: vec![0x51; l], seq: u32::MAX, wit: vec![vec![0; 32]] }], outs: vec![Out { value: 5_000_000_000, script: [vec![0x76, 0xa9, 0x14], vec![7; 20], vec![0x88, 0xac]].concat() }, Out { value: 0, script: vec![0x6a, 2, 1, 1] }], lock: 0 };
    let nw = |mut t: Tx| { for i in t.ins.iter_mut() { i.wit.clear() } t };
    let inp = |n: u8, l: usize, w: Vec<Vec<u8>>| In { src: Src::Out(h(n), n as u32), script: vec![n; l], seq: 0xffff_fffd, wit: w };
    let pay = |l: usize| Out { value: 1234, script: vec![0x51; l] };
    let txs = vec![
        nw(cb(1, None, 4)), nw(cb(2, Some(0x0a_bcde), 3)), cb(2, Some(7), 0), nw(cb(2, Some(0x7fff_ffff), 1)), nw(cb(2, Some(0x80), 96)), nw(cb(2, Some(1), 98)), nw(cb(1, None, 100)),
        Tx { version: 1, ins: vec![inp(1, 0, vec![])], outs: vec![pay(0)], lock: 0 },
        Tx { version: 2, ins: vec![inp(1, 3, vec![])], outs: vec![pay(2), pay(1)], lock: 500_000_000 },
        Tx { version: 2, ins: vec![inp(1, 1, vec![vec![1, 2], vec![]]), inp(2, 0, vec![])], outs: vec![pay(1)], lock: 9 },
        Tx { version: 1, ins: vec![inp(3, 0, vec![]), inp(4, 2, vec![vec![]])], outs: vec![], lock: u32::MAX },
        Tx { version: 1, ins: vec![], outs: vec![], lock: 77 },
        Tx { version: 2, ins: vec![inp(1, 0xfd, vec![])], outs: vec![pay(0xfd)], lock: 1 },
        Tx { version: 2, ins: vec![inp(1, 1, vec![vec![3; 0xfd]])], outs: vec![pay(1)], lock: 1 },
    ];
    txs.iter().map(|t| t.encode(true)).collect()
}

pub fn b02(c: &mut Ctx) {
    c.bound("transactions: 14 base encodings x {every truncation, every byte x 256 values, every compact-size position x 20 length forms (1/3/5/9 byte, huge), all pairs of the length positions x 20 forms, insertion and deletion of every byte}; all byte strings of length <= 2 (3 thorough) after every prefix that ends at a length field; merkle proofs and headers likewise");
    let base = corpus();
    for b in &base { c.sample(hex(b)); }
    let forms: Vec<Vec<u8>> = { let mut f: Vec<Vec<u8>> = [0u8, 1, 2, 3, 4, 5, 6, 0x20, 0x50, 0xfc].iter().map(|x| vec![*x]).collect();
        f.extend([vec![0xfd, 1, 0], vec![0xfd, 4, 0], vec![0xfd, 0xff, 0xff], vec![0xfe, 4, 0, 0, 0], vec![0xfe, 0xff, 0xff, 0xff, 0xff], vec![0xff, 4, 0, 0, 0, 0, 0, 0, 0], vec![0xff, 0, 0, 0, 0, 1, 0, 0, 0], vec![0xff; 9], vec![0xff, 0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0xff, 0, 0, 0, 0, 0, 0, 0, 0x80]]); f };
    for b in &base { tx_bytes(c, b) }
    par(c, &base, |c, b| {
        for l in 0..b.len() { tx_bytes(c, &b[..l]) }
        for i in 0..b.len() {
            let mut m = b.clone();
            for v in 0..=255u8 { m[i] = v; tx_bytes(c, &m) }
            let mut d = b.clone(); d.remove(i); tx_bytes(c, &d);
            for v in [0u8, 1, 0xff] { let mut d = b.clone(); d.insert(i, v); tx_bytes(c, &d) }
            for f in &forms { let mut d = b[..i].to_vec(); d.extend(f); d.extend(&b[i + 1..]); tx_bytes(c, &d) }
        }
    });
    // pairs of length-like positions: positions where the byte is small and precedes the data it counts
    par(c, &base, |c, b| {
        let mut pos: Vec<usize> = vec![4, 5, 6];
        let mut r = Rd::new(b);
        // offsets of the length fields of a valid encoding are found by replaying the reference parser
        pos.extend(len_positions(&mut r));
        pos.sort(); pos.dedup(); pos.retain(|p| *p < b.len());
        for (x, &i) in pos.iter().enumerate() { for &j in &pos[x + 1..] {
            for f in &forms { for g in &forms {
                let mut d = b[..i].to_vec(); d.extend(f); d.extend(&b[i + 1..j]); d.extend(g); d.extend(&b[j + 1..]);
                tx_bytes(c, &d);
                d.extend(vec![0u8; 40]); tx_bytes(c, &d);
            } }
        } }
    });
    // short strings after every prefix
    let tail = c.pick(2, 2);
    par(c, &base, |c, b| {
        let mut r = Rd::new(b);
        let mut pos = len_positions(&mut r); pos.push(0); pos.push(4); pos.sort(); pos.dedup();
        for p in pos { tuples(256, tail, |v| { let mut d = b[..p].to_vec(); d.extend(v.iter().map(|x| *x as u8)); tx_bytes(c, &d) }); }
    });
    // compact integers: every string up to length 3, plus all truncations of the long forms
    let firsts: Vec<u16> = (0..256).collect();
    par(c, &firsts, |c, &a| {
        let mut one = |b: &[u8]| {
            let mut r = Rd::new(b);
            let want = r.compact().ok().map(|v| (v, r.p));
            c.case(1);
            match guard(|| parse_compact_uint(b).ok()) { Ok(g) => { if g != want { c.fail("compact-parse", format!("{}: {:?} vs {:?}", hex(b), g, want), vec![hex(b)]) } } Err(p) => c.fail(format!("parse-panic:{}", panic_site(&p)), format!("{}: {}", hex(b), p), vec![hex(b)]) }
        };
        one(&[a as u8]);
        for x in 0..=255u8 { one(&[a as u8, x]); for y in 0..=255u8 { one(&[a as u8, x, y]) } }
        for l in 3..12 { for f in [0u8, 1, 0x7f, 0x80, 0xff] { one(&[vec![a as u8], vec![f; l]].concat()) } }
    });
    c.ensure("compact-parse", parse_compact_uint(&[]).is_err(), || "empty".into());
    // output script limit
    for l in [9_999u64, 10_000, 10_001, 20_000] { for v in [1, 2] {
        let t = Tx { version: v, ins: vec![In { src: Src::Out(h(1), 1), script: vec![], seq: 0, wit: vec![] }], outs: vec![Out { value: 1, script: vec![0x6a; l as usize] }], lock: 0 };
        tx_bytes(c, &t.encode(true));
    } }
    for l in [99usize, 100, 101, 300] { for v in [1, 2] { for hgt in [None, Some(700_000)] {
        let t = Tx { version: v, ins: vec![In { src: Src::Coinbase(hgt), script: vec![1; l], seq: 0, wit: vec![] }], outs: vec![], lock: 0 };
        tx_bytes(c, &t.encode(true));
    } } }
    // headers and merkle proofs
    let hd: Vec<u8> = [&4i32.to_le_bytes()[..], &h(3), &h(4), &5u32.to_le_bytes(), &0x1b04864cu32.to_le_bytes(), &7u32.to_le_bytes()].concat();
    for l in 0..=200 { let mut b = hd.clone(); b.resize(l, 0x1d); header_bytes(c, &b) }
    for i in 0..80 { for v in 0..=255u8 { let mut b = hd.clone(); b[i] = v; header_bytes(c, &b) } }
    for e in 0..=255u8 { for m in 0..=255u8 { for lo in [0u8, 1, 0xff] { let mut b = hd.clone(); b[75] = e; b[74] = m; b[73] = lo; b[72] = lo; header_bytes(c, &b) } } }
    let mut pr = vec![];
    for (nh, nf, cnt) in [(0usize, 0usize, 0u32), (1, 1, 1), (3, 1, 7), (12, 4, 2000), (0, 1, 3), (2, 0, 2)] {
        let mut b = hd.clone(); b.extend(cnt.to_le_bytes()); compact(&mut b, nh as u64); for i in 0..nh { b.extend(h(i as u8)) } compact(&mut b, nf as u64); b.extend(vec![0x5d; nf]); pr.push(b);
    }
    par(c, &pr, |c, b| {
        for l in 0..=b.len() { proof_bytes(c, &b[..l]) }
        for i in 72..b.len() { if i > 100 && i + 12 < b.len() && i % 7 != 0 { continue }
            for v in 0..=255u8 { let mut m = b.clone(); m[i] = v; proof_bytes(c, &m) }
            for f in &forms { let mut d = b[..i].to_vec(); d.extend(f); d.extend(&b[i + 1..]); proof_bytes(c, &d) }
        }
        let mut e = b.clone(); e.extend([1, 2, 3]); proof_bytes(c, &e);
    });
    // scripts: every string up to length 2 (3 thorough) and a long tail never panic in any accessor
    let n = c.pick(2, 3);
    let f: Vec<usize> = (0..256).collect();
    par(c, &f, |c, &a| {
        let mut one = |b: Vec<u8>| { c.case(1); if let Err(p) = guard(|| scripts(&b)) { c.fail(format!("script-panic:{}", panic_site(&p)), format!("script {}: {}", hex(&b), p), vec![hex(&b)]) } };
        one(vec![]);
        one(vec![a as u8]);
        for k in 1..n { tuples(256, k, |v| { let mut b = vec![a as u8]; b.extend(v.iter().map(|x| *x as u8)); one(b) }) }
        for l in 0..300 { one([vec![a as u8], vec![l as u8; l]].concat()); one([vec![a as u8, 0x14], vec![l as u8; l]].concat()); one([vec![a as u8, 0x20], vec![l as u8; l]].concat()) }
    });
}
fn scripts(b: &[u8]) {
    let s = Script::from(b.to_vec());
    let _ = (s.is_p2pkh(), s.is_p2sh(), s.is_p2wpkh_v0(), s.is_p2wsh_v0(), s.extract_op_return_data(), s.len(), s.is_empty(), s.as_hex());
    let o = TransactionOutput { value: 0, script: s.clone() };
    let _ = o.extract_address();
    let _ = Address::from_script_pub_key(&s);
}
/// offsets of all compact-size fields of a valid encoding
fn len_positions(r: &mut Rd) -> Vec<usize> {
    let mut v = vec![];
    let _ = (|| -> Result<(), ()> {
        let version = r.u32()? as i32;
        v.push(r.p);
        let mut n = r.compact()?;
        let mut flag = 0;
        if n == 0 { flag = r.u8()?; if flag != 0 { v.push(r.p); n = r.compact()?; } }
        for _ in 0..n { let hh = r.take(32)?; let cb = hh == [0u8; 32]; r.u32()?; v.push(r.p); let l = r.compact()?; if cb && version == 2 { v.push(r.p) } r.take(l)?; r.u32()?; }
        v.push(r.p);
        let m = r.compact()?;
        for _ in 0..m { r.take(8)?; v.push(r.p); let l = r.compact()?; r.take(l)?; }
        if flag & 1 != 0 { for _ in 0..n { v.push(r.p); let k = r.compact()?; for _ in 0..k { v.push(r.p); let l = r.compact()?; r.take(l)?; } } }
        Ok(())
    })();
    v
}
