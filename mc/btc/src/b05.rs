use crate::spec::*;
use bitcoin::types::*;
use bitcoin::{Address, Script};
use kit::*;
use primitive_types::{H160, H256};

fn template(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => [&[0x76, 0xa9, 0x14][..], h.as_bytes(), &[0x88, 0xac]].concat(),
        Address::P2SH(h) => [&[0xa9, 0x14][..], h.as_bytes(), &[0x87]].concat(),
        Address::P2WPKHv0(h) => [&[0x00, 0x14][..], h.as_bytes()].concat(),
        Address::P2WSHv0(h) => [&[0x00, 0x20][..], h.as_bytes()].concat(),
    }
}
/// the address a script pays to, by the standard templates
fn classify(b: &[u8]) -> Option<Address> {
    let n = b.len();
    if n == 25 && b[..3] == [0x76, 0xa9, 0x14] && b[23..] == [0x88, 0xac] { return Some(Address::P2PKH(H160::from_slice(&b[3..23]))) }
    if n == 23 && b[..2] == [0xa9, 0x14] && b[22] == 0x87 { return Some(Address::P2SH(H160::from_slice(&b[2..22]))) }
    if n == 22 && b[..2] == [0x00, 0x14] { return Some(Address::P2WPKHv0(H160::from_slice(&b[2..]))) }
    if n == 34 && b[..2] == [0x00, 0x20] { return Some(Address::P2WSHv0(H256::from_slice(&b[2..]))) }
    None
}
fn check_script(c: &mut Ctx, b: &[u8]) {
    let what = || format!("script {}", hex(b));
    let want = classify(b);
    c.case(1);
    let s = Script::from(b.to_vec());
    let r = guard(|| (Address::from_script_pub_key(&s).ok(), TransactionOutput { value: 1, script: s.clone() }.extract_address().ok(), (s.is_p2pkh(), s.is_p2sh(), s.is_p2wpkh_v0(), s.is_p2wsh_v0()), s.len(), s.is_empty(), s.as_hex()));
    let kind = (matches!(want, Some(Address::P2PKH(_))), matches!(want, Some(Address::P2SH(_))), matches!(want, Some(Address::P2WPKHv0(_))), matches!(want, Some(Address::P2WSHv0(_))));
    c.outcome(match want { Some(Address::P2PKH(_)) => "p2pkh", Some(Address::P2SH(_)) => "p2sh", Some(Address::P2WPKHv0(_)) => "p2wpkh", Some(Address::P2WSHv0(_)) => "p2wsh", None => "non-standard" });
    match r { Ok((a, e, k, l, em, hx)) => {
        c.eq("address-extraction", what, &a, &want);
        c.eq("output-address", what, &e, &want);
        c.eq("script-predicates", what, &k, &kind);
        c.ensure("script-accessors", l == b.len() && em == b.is_empty() && hx == b.iter().map(|x| format!("{:02x}", x)).collect::<String>() && s.as_bytes() == b, what);
    } Err(p) => c.fail("script-panic", format!("{}: {}", what(), p), vec![what()]) }
}

pub fn b05(c: &mut Ctx) {
    let mut h20: Vec<[u8; 20]> = vec![[0; 20], [0xff; 20]];
    for i in 0..20 { for v in [1u8, 0x14, 0x20, 0x80, 0x87, 0x88, 0xac, 0x76, 0xa9] { let mut x = [0x11; 20]; x[i] = v; h20.push(x); let mut y = [0; 20]; y[i] = v; h20.push(y) } }
    let mut h32: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32]];
    for i in 0..32 { for v in [1u8, 0x14, 0x20, 0x80, 0x87, 0xac] { let mut x = [0x22; 32]; x[i] = v; h32.push(x); let mut y = [0; 32]; y[i] = v; h32.push(y) } }
    let mut all = vec![];
    for x in &h20 { for k in 0..3 { let h = H160::from_slice(x); all.push(match k { 0 => Address::P2PKH(h), 1 => Address::P2SH(h), _ => Address::P2WPKHv0(h) }) } }
    for x in &h32 { all.push(Address::P2WSHv0(H256::from_slice(x))) }
    c.bound(format!("{} addresses; every script obtained from 8 templates by replacing any byte by any value, truncation, extension by 0..12 bytes, removal/insertion of any byte; every pair of replacements on the opcode positions", all.len()));
    let mut seen = std::collections::HashMap::new();
    for a in &all {
        let t = template(a);
        let what = || format!("{:?}", a);
        c.case(4);
        let s = guard(|| a.to_script_pub_key());
        c.eq("address-script", what, &s.as_ref().map(|s| s.as_bytes().to_vec()), &Ok(t.clone()));
        c.eq("address-roundtrip", what, &guard(|| Address::from_script_pub_key(&Script::from(t.clone())).ok()), &Ok(Some(*a)));
        if let Some(o) = seen.insert(t.clone(), *a) { c.ensure("address-injective", o == *a, || format!("{:?} {:?}", o, a)); }
        for v in [0i64, 1, -1, i64::MAX] { let o = TransactionOutput::payment(v, a); c.ensure("payment-output", o.value == v && o.script.as_bytes() == &t[..] && o.extract_address() == Ok(*a), what); }
        let zero = match a { Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h.is_zero(), Address::P2WSHv0(h) => h.is_zero() };
        c.eq("address-is-zero", what, &a.is_zero(), &zero);
        // through rust-bitcoin's representation and back
        let p = guard(|| rb::address::Payload::try_from(*a).ok());
        let r = guard(|| p.clone().unwrap().and_then(|p| Address::try_from(p).ok()));
        c.eq("address-compat", what, &r, &Ok(Some(*a)));
        if let Ok(Some(p)) = p { c.ensure("address-compat-script", p.script_pubkey().as_bytes() == &t[..], what); }
    }
    // scale codec round trip
    for a in &all { use codec::{Decode, Encode}; let e = a.encode(); c.case(1); c.ensure("address-codec", Address::decode(&mut &e[..]).ok() == Some(*a) && e.len() == if matches!(a, Address::P2WSHv0(_)) { 33 } else { 21 }, || format!("{:?}", a)); }
    c.sample(format!("{:?} -> {}", all[3], hex(&template(&all[3]))));
    let mut bases: Vec<Vec<u8>> = vec![];
    for k in [5usize, 6, 7] { bases.push(template(&all[k])) }
    bases.push(template(all.last().unwrap()));
    bases.push([vec![0x51, 0x20], vec![9; 32]].concat()); // taproot
    bases.push([vec![0x21], vec![2; 33], vec![0xac]].concat()); // p2pk
    bases.push([vec![0x6a, 0x20], vec![9; 32]].concat());
    bases.push([vec![0x76, 0xa9, 0x20], vec![9; 32], vec![0x88, 0xac]].concat());
    par(c, &bases, |c, b| {
        check_script(c, b);
        for l in 0..b.len() { check_script(c, &b[..l]); check_script(c, &b[l..]) }
        for i in 0..b.len() { for v in 0..=255u8 { let mut m = b.clone(); m[i] = v; check_script(c, &m) } let mut d = b.clone(); d.remove(i); check_script(c, &d); for v in [0u8, 0x14, 0x20, 0x76, 0x87, 0x88, 0xa9, 0xac] { let mut d = b.clone(); d.insert(i, v); check_script(c, &d) } }
        for e in 1..=12 { for v in [0u8, 0x14, 0x87, 0xac] { let mut d = b.clone(); d.extend(vec![v; e]); check_script(c, &d); let mut d = vec![v; e]; d.extend(b); check_script(c, &d) } }
        let ops: Vec<usize> = (0..3.min(b.len())).chain(b.len().saturating_sub(3)..b.len()).collect();
        for &i in &ops { for &j in &ops { if i < j { for v in 0..=255u8 { for w in [0u8, 0x14, 0x15, 0x20, 0x21, 0x76, 0x87, 0x88, 0xa9, 0xac, v] { let mut m = b.clone(); m[i] = v; m[j] = w; check_script(c, &m) } } } } }
    });
    for l in 0..=120usize { for a in [0u8, 0x14, 0x20, 0x76, 0xa9, 0x51, 0x6a] { for b in [0u8, 0x14, 0x20, 0xa9] { let mut s = vec![a, b, 0x14]; s.resize(l.max(3), 0x88); s.truncate(l); check_script(c, &s) } } }
    // OP_RETURN: (first opcode, push byte, payload length) completely
    let firsts: Vec<u8> = c.pick(vec![0x6a, 0x00, 0x69, 0x6b], (0..=255).collect());
    c.bound("OP_RETURN: all push bytes 0..255 x payload lengths 0..120, plus every builder payload length 0..81");
    par(c, &firsts, |c, &f| for push in 0..=255u8 { for n in 0..=120usize {
        let data: Vec<u8> = (0..n).map(|i| (i * 3 + 1) as u8).collect();
        let s = [vec![f, push], data.clone()].concat();
        let want = if f == 0x6a && s.len() <= 83 && push as usize == n { Some(data) } else { None };
        c.case(1);
        c.outcome(if want.is_some() { "op_return data" } else { "no op_return data" });
        c.eq("op-return-extract", || format!("script {}", hex(&s)), &guard(|| Script::from(s.clone()).extract_op_return_data().ok()), &Ok(want));
    } });
    c.ensure("op-return-extract", guard(|| Script::from(vec![]).extract_op_return_data().is_err() && Script::from(vec![0x6a]).extract_op_return_data().is_err()) == Ok(true), || "empty scripts".into());
    for n in 0..=81usize { for pat in 0..3u8 {
        let d: Vec<u8> = (0..n).map(|i| match pat { 0 => 0, 1 => 0xff, _ => i as u8 }).collect();
        c.case(2);
        let r = guard(|| (Script::op_return(&d), TransactionOutput::op_return(7, &d)));
        let Ok((s, o)) = r else { c.fail("op-return-build", format!("{}", hex(&d)), vec![]); continue };
        c.ensure("op-return-build", s.as_bytes() == [vec![0x6a, n as u8], d.clone()].concat() && o.script == s && o.value == 7 && s.extract_op_return_data() == Ok(d.clone()) && o.extract_address().is_err(), || format!("payload {}", hex(&d)));
    } }
    let _ = h160(&[]);
}
