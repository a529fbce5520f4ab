use crate::spec::*;
use bitcoin::types::*;
use bitcoin::{Address, PublicKey};
use kit::*;
use libsecp256k1::{PublicKey as LPub, SecretKey as LSec};
use primitive_types::H256;
use rb::hashes::{sha256, Hash};

fn secret(k: u64, hi: bool) -> [u8; 32] {
    // small scalars and scalars just below the group order
    let n = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
    let mut b = [0u8; 32];
    if !hi { b[24..].copy_from_slice(&k.to_be_bytes()); return b }
    let mut borrow = k as i128;
    for i in (0..32).rev() { let mut v = n[i] as i128 - (borrow & 0xff); borrow >>= 8; if v < 0 { v += 256; borrow += 1; } b[i] = v as u8; }
    b
}
pub fn b06(c: &mut Ctx) {
    let nk = c.pick(12u64, 60); let ni = c.pick(40usize, 300);
    let mut keys: Vec<[u8; 32]> = vec![];
    for k in 1..=nk { keys.push(secret(k, false)); keys.push(secret(k, true)) }
    for k in 0..nk { let mut b = [0x5a; 32]; b[(k % 32) as usize] = k as u8; keys.push(b) }
    let mut ids: Vec<H256> = vec![H256::zero(), H256::repeat_byte(0xff)];
    for k in 0..ni { let mut b = [0u8; 32]; b[k % 32] = (k / 32 + 1) as u8; ids.push(H256::from(b)); }
    c.bound(format!("{} private keys (1.., order-1.., patterns) x {} request ids; all corruptions of the key prefix; all single-bit key corruptions", keys.len(), ids.len()));
    par(c, &keys, |c, k| {
        let v = LSec::parse(k).expect("valid scalar");
        let big = LPub::from_secret_key(&v).serialize_compressed();
        let pk = PublicKey(big);
        let what = || format!("key {}", hex(&big));
        let mut seen = std::collections::HashSet::new();
        for id in &ids {
            let scalar = sha256::Hash::hash(&[&big[..], id.as_bytes()].concat()).to_byte_array();
            // vault side: private key v*c
            let mut s = LSec::parse(k).unwrap();
            s.tweak_mul_assign(&LSec::parse(&scalar).unwrap()).unwrap();
            let want = LPub::from_secret_key(&s).serialize_compressed();
            let got = guard(|| pk.new_deposit_public_key(*id).ok().map(|p| p.0));
            c.case(2);
            c.eq("deposit-key", || format!("{} id {:?}", what(), id), &got, &Ok(Some(want)));
            let again = guard(|| pk.new_deposit_public_key(*id).ok().map(|p| p.0));
            c.eq("deposit-key-deterministic", || format!("{} id {:?}", what(), id), &again, &got);
            if let Ok(Some(g)) = got { c.ensure("deposit-key-distinct", seen.insert(g) && g != big, || format!("{} id {:?}", what(), id)); c.eq("key-hash", what, &guard(|| PublicKey(g).to_hash().0), &Ok(h160(&g))); }
        }
        c.outcome("derived");
        // addresses from the key, and the scripts spending from them
        for siglen in [1usize, 71, 72, 75] {
            let sig = vec![0x30; siglen];
            let mut want = vec![siglen as u8]; want.extend(&sig); want.push(33); want.extend(big);
            let got = guard(|| pk.to_p2pkh_script_sig(sig.clone()).as_bytes().to_vec());
            c.case(3);
            c.eq("p2pkh-script-sig", what, &got, &Ok(want.clone()));
            let mut rs = big.to_vec(); rs.push(0xac);
            let mut w2 = vec![0, siglen as u8]; w2.extend(&sig); w2.push(34); w2.extend(&rs);
            c.eq("p2sh-script-sig", what, &guard(|| pk.to_p2sh_script_sig(sig.clone()).as_bytes().to_vec()), &Ok(w2.clone()));
            let r = guard(|| { let mut b = TransactionInputBuilder::new(); let a = b.with_p2pkh(&pk, sig.clone()).build(); let mut b = TransactionInputBuilder::new(); let s = b.with_p2sh(&pk, sig.clone()).build(); let mut b = TransactionInputBuilder::new(); let w = b.with_p2wpkh(&pk, sig.clone()).build(); let mut b = TransactionInputBuilder::new(); let x = b.with_p2wsh(&pk, sig.clone()).build(); (a, s, w, x) });
            if let Ok((a, s, w, x)) = r {
                c.ensure("input-scripts", a.script == want && a.witness.is_empty() && s.script == w2 && w.script.is_empty() && w.witness == vec![sig.clone(), big.to_vec()] && x.witness == vec![sig.clone(), rs.clone()], what);
            } else { c.fail("input-scripts", what(), vec![]) }
        }
        c.ensure("key-bytes", pk.as_bytes() == &big[..], what);
        let js = serde_json::to_string(&pk).unwrap_or_default();
        c.eq("key-serde", what, &js, &format!("\"0x{}\"", hex(&big)));
        c.ensure("key-serde", serde_json::from_str::<PublicKey>(&js).ok() == Some(pk.clone()), what);
        let _ = Address::P2PKH(pk.to_hash());
    });
    c.sample("v=1, id=0: D = (sha256(V||id))*V equals (v*c)*G computed with libsecp256k1");
    // invalid keys are refused, never mapped to an address
    let g = LPub::from_secret_key(&LSec::parse(&secret(7, false)).unwrap()).serialize_compressed();
    let mut bad: Vec<[u8; 33]> = vec![[0; 33], [0xff; 33]];
    for p in 0..=255u8 { let mut b = g; b[0] = p; bad.push(b) }
    for i in 1..33 { for bit in 0..8 { let mut b = g; b[i] ^= 1 << bit; bad.push(b) } }
    par(c, &bad, |c, b| {
        let want = LPub::parse_compressed(b).ok().map(|mut p| { let s = sha256::Hash::hash(&[&b[..], &[0u8; 32]].concat()).to_byte_array(); p.tweak_mul_assign(&LSec::parse(&s).unwrap()).unwrap(); p.serialize_compressed() });
        c.case(1);
        c.outcome(if want.is_some() { "valid key" } else { "invalid key refused" });
        c.eq("invalid-key", || format!("key {}", hex(b)), &guard(|| PublicKey(*b).new_deposit_public_key(H256::zero()).ok().map(|p| p.0)), &Ok(want));
    });
}
