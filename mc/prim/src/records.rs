use bitcoin::{Address, PublicKey};
use primitive_types::{H160, H256, U256};

fn addresses() -> Vec<Address> {
    let mut seq = [0u8; 32]; for i in 0..32 { seq[i] = i as u8 + 1 }
    let h20 = |b: u8| { let mut a = [0u8; 20]; a.copy_from_slice(&seq[..20]); a[0] = b; H160(a) };
    vec![Address::P2PKH(h20(0)), Address::P2SH(h20(255)), Address::P2WPKHv0(h20(7)), Address::P2WSHv0(H256(seq)), Address::P2PKH(H160::zero())]
}
fn lay_addr(a: &Address) -> Vec<u8> { let (n, b): (u8, Vec<u8>) = match a { Address::P2PKH(h) => (0, h.0.to_vec()), Address::P2SH(h) => (1, h.0.to_vec()), Address::P2WPKHv0(h) => (2, h.0.to_vec()), Address::P2WSHv0(h) => (3, h.0.to_vec()) }; let mut v = vec![n]; v.extend(b); v }
fn ja(a: &Address) -> String { let (n, b): (&str, Vec<u8>) = match a { Address::P2PKH(h) => ("P2PKH", h.0.to_vec()), Address::P2SH(h) => ("P2SH", h.0.to_vec()), Address::P2WPKHv0(h) => ("P2WPKHv0", h.0.to_vec()), Address::P2WSHv0(h) => ("P2WSHv0", h.0.to_vec()) }; format!("{{\"{n}\":\"0x{}\"}}", hex(&b)) }
fn keys() -> Vec<PublicKey> { let mut a = [0u8; 33]; for i in 0..33 { a[i] = i as u8 + 2 } vec![PublicKey([0; 33]), PublicKey(a), PublicKey([0xff; 33])] }

type V = VaultId<u64, CurrencyId>;
type Iss = issue::IssueRequest<u64, u32, u128, CurrencyId>;
type Red = redeem::RedeemRequest<u64, u32, u128, CurrencyId>;
type Rep = replace::ReplaceRequest<u64, u32, u128, CurrencyId>;

fn lay_vault(v: &V) -> Vec<u8> { let mut e = v.account_id.to_le_bytes().to_vec(); e.extend(lay_currency(&v.currencies.collateral)); e.extend(lay_currency(&v.currencies.wrapped)); e }
fn jv(v: &V) -> String { format!("{{\"account_id\":{},\"currencies\":{{\"collateral\":{},\"wrapped\":{}}}}}", v.account_id, jc(&v.currencies.collateral), jc(&v.currencies.wrapped)) }
const AMTS: [u128; 6] = [0, 1, 255, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX];
const NUMS: [u32; 4] = [0, 1, 256, u32::MAX];
fn vaults() -> Vec<V> { vec![
    VaultId::new(0, CurrencyId::Token(DOT), CurrencyId::Token(IBTC)), VaultId::new(u64::MAX, CurrencyId::Token(KSM), CurrencyId::Token(KBTC)), VaultId::new(256, CurrencyId::ForeignAsset(1), CurrencyId::Token(IBTC)),
    VaultId::new(5, CurrencyId::LendToken(u32::MAX), CurrencyId::Token(KBTC)), VaultId::new(6, CurrencyId::LpToken(LpToken::Token(KSM), LpToken::StableLpToken(9)), CurrencyId::StableLpToken(3))] }

/// pairwise: all assignments in which at most two fields leave their base value
fn pairwise(sizes: &[usize], mut f: impl FnMut(&[usize])) {
    let mut x = vec![0; sizes.len()];
    f(&x);
    for i in 0..sizes.len() { for a in 1..sizes[i] { x[i] = a; f(&x); for j in i + 1..sizes.len() { for b in 1..sizes[j] { x[j] = b; f(&x); } x[j] = 0; } } x[i] = 0; }
}
struct W(Vec<u8>, Vec<(String, String)>);
impl W {
    fn put(&mut self, name: &str, bytes: &[u8], json: String) { self.0.extend_from_slice(bytes); self.1.push((name.into(), json)) }
    fn amt(&mut self, n: &str, a: u128) { self.put(n, &a.to_le_bytes(), format!("\"{a}\"")) }
    fn num(&mut self, n: &str, a: u32) { self.put(n, &a.to_le_bytes(), a.to_string()) }
    fn json(&self) -> String { format!("{{{}}}", self.1.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")) }
}
fn unique<T: Debug>(c: &mut Ctx, what: &str, seen: &mut BTreeMap<Vec<u8>, String>, e: Vec<u8>, v: &T) { let s = format!("{v:?}"); if let Some(o) = seen.insert(e, s.clone()) { if o != s { c.fail(format!("{what}:unique"), "two different records have the same encoding".to_string(), vec![o, s]) } } }

fn records(c: &mut Ctx) {
    let (vs, ads, ks, cs) = (vaults(), addresses(), keys(), currencies(&[0, 77]));
    for a in &ads { codec_case(c, "address", a, &lay_addr(a), true); json_case(c, "address", a, &ja(a)); }
    for k in &ks { codec_case(c, "pubkey", k, &k.0, true); json_case(c, "pubkey", k, &format!("\"0x{}\"", hex(&k.0))); c.ensure("pubkey:bytes", k.as_bytes() == k.0 && PublicKey::from(k.0) == *k, || "bytes".into()); }
    // statuses
    use issue::IssueRequestStatus as IS; use redeem::RedeemRequestStatus as RS; use replace::ReplaceRequestStatus as PS;
    let iss = [(IS::Pending, 0u8, "\"pending\""), (IS::Completed, 1, "\"completed\""), (IS::Cancelled, 2, "\"cancelled\"")];
    let res: [(RS, Vec<u8>, &str); 5] = [(RS::Pending, vec![0], "\"pending\""), (RS::Completed, vec![1], "\"completed\""), (RS::Reimbursed(false), vec![2, 0], "{\"reimbursed\":false}"), (RS::Reimbursed(true), vec![2, 1], "{\"reimbursed\":true}"), (RS::Retried, vec![3], "\"retried\"")];
    let pss = [(PS::Pending, 0u8, "\"pending\""), (PS::Completed, 1, "\"completed\""), (PS::Cancelled, 2, "\"cancelled\"")];
    for (s, n, j) in &iss { codec_case(c, "issue-status", s, &[*n], true); json_case(c, "issue-status", s, j); }
    for (s, n, j) in &res { codec_case(c, "redeem-status", s, n, true); json_case(c, "redeem-status", s, j); }
    for (s, n, j) in &pss { codec_case(c, "replace-status", s, &[*n], true); json_case(c, "replace-status", s, j); }
    c.ensure("status:default", IS::default() == IS::Pending && RS::default() == RS::Pending && PS::default() == PS::Pending, || "a new request is pending".into());
    for n in 0..=255u8 { let one = [n, 0]; c.case(1);
        c.ensure("status:decode", IS::decode(&mut &one[..]).is_ok() == (n < 3) && PS::decode(&mut &one[..]).is_ok() == (n < 3) && RS::decode(&mut &one[..]).is_ok() == (n < 4), || format!("status byte {n}"));
        let two = [2u8, n]; c.ensure("status:decode", RS::decode(&mut &two[..]).is_ok() == (n < 2), || format!("reimbursed flag byte {n}")); }
    let mut seen = BTreeMap::new();
    pairwise(&[vs.len(), 4, 4, 6, cs.len().min(9), 6, 6, 4, ads.len(), ks.len(), 4, iss.len()], |x| {
        let u = [3u64, 0, 256, u64::MAX];
        let r: Iss = issue::IssueRequest { vault: vs[x[0]].clone(), opentime: NUMS[x[1]], period: NUMS[x[2]], griefing_collateral: AMTS[x[3]], griefing_currency: cs[x[4] * 3], amount: AMTS[x[5]], fee: AMTS[x[6]], requester: u[x[7]], btc_address: ads[x[8]], btc_public_key: ks[x[9]].clone(), btc_height: NUMS[x[10]], status: iss[x[11]].0.clone() };
        let mut w = W(vec![], vec![]);
        w.put("vault", &lay_vault(&r.vault), jv(&r.vault)); w.num("opentime", r.opentime); w.num("period", r.period); w.amt("griefing_collateral", r.griefing_collateral); w.put("griefing_currency", &lay_currency(&r.griefing_currency), jc(&r.griefing_currency));
        w.amt("amount", r.amount); w.amt("fee", r.fee); w.put("requester", &r.requester.to_le_bytes(), r.requester.to_string()); w.put("btc_address", &lay_addr(&r.btc_address), ja(&r.btc_address)); w.put("btc_public_key", &r.btc_public_key.0, format!("\"0x{}\"", hex(&r.btc_public_key.0))); w.num("btc_height", r.btc_height); w.put("status", &[iss[x[11]].1], iss[x[11]].2.into());
        let e = codec_case(c, "issue", &r, &w.0, false); json_case(c, "issue", &r, &w.json()); unique(c, "issue", &mut seen, e, &r);
    });
    seen.clear();
    pairwise(&[vs.len(), 4, 4, 6, 6, 6, 6, 4, ads.len(), 4, res.len()], |x| {
        let u = [3u64, 0, 256, u64::MAX];
        let r: Red = redeem::RedeemRequest { vault: vs[x[0]].clone(), opentime: NUMS[x[1]], period: NUMS[x[2]], fee: AMTS[x[3]], transfer_fee_btc: AMTS[x[4]], amount_btc: AMTS[x[5]], premium: AMTS[x[6]], redeemer: u[x[7]], btc_address: ads[x[8]], btc_height: NUMS[x[9]], status: res[x[10]].0.clone() };
        let mut w = W(vec![], vec![]);
        w.put("vault", &lay_vault(&r.vault), jv(&r.vault)); w.num("opentime", r.opentime); w.num("period", r.period); w.amt("fee", r.fee); w.amt("transfer_fee_btc", r.transfer_fee_btc); w.amt("amount_btc", r.amount_btc); w.amt("premium", r.premium);
        w.put("redeemer", &r.redeemer.to_le_bytes(), r.redeemer.to_string()); w.put("btc_address", &lay_addr(&r.btc_address), ja(&r.btc_address)); w.num("btc_height", r.btc_height); w.put("status", &res[x[10]].1, res[x[10]].2.into());
        let e = codec_case(c, "redeem", &r, &w.0, false); json_case(c, "redeem", &r, &w.json()); unique(c, "redeem", &mut seen, e, &r);
    });
    seen.clear();
    pairwise(&[vs.len(), vs.len(), 6, 6, 6, 4, 4, ads.len(), 4, pss.len()], |x| {
        let r: Rep = replace::ReplaceRequest { old_vault: vs[x[0]].clone(), new_vault: vs[x[1]].clone(), amount: AMTS[x[2]], griefing_collateral: AMTS[x[3]], collateral: AMTS[x[4]], accept_time: NUMS[x[5]], period: NUMS[x[6]], btc_address: ads[x[7]], btc_height: NUMS[x[8]], status: pss[x[9]].0.clone() };
        let mut w = W(vec![], vec![]);
        w.put("old_vault", &lay_vault(&r.old_vault), jv(&r.old_vault)); w.put("new_vault", &lay_vault(&r.new_vault), jv(&r.new_vault)); w.amt("amount", r.amount); w.amt("griefing_collateral", r.griefing_collateral); w.amt("collateral", r.collateral); w.num("accept_time", r.accept_time); w.num("period", r.period); w.put("btc_address", &lay_addr(&r.btc_address), ja(&r.btc_address)); w.num("btc_height", r.btc_height); w.put("status", &[pss[x[9]].1], pss[x[9]].2.into());
        let e = codec_case(c, "replace", &r, &w.0, false); json_case(c, "replace", &r, &w.json()); unique(c, "replace", &mut seen, e, &r);
    });
    // balances as strings
    for a in AMTS { let b = BalanceWrapper { amount: a }; c.case(1);
        let j = serde_json::to_string(&b).unwrap();
        c.ensure("balance:json", j == format!("{{\"amount\":\"{a}\"}}") && serde_json::from_str::<BalanceWrapper<u128>>(&j).map(|x| x.amount).ok() == Some(a) && b.encode() == a.to_le_bytes(), || format!("{a}: {j}")); }
    for bad in ["\"\"", "\"x\"", "\"-1\"", "\"340282366920938463463374607431768211456\"", "\"1.0\"", "12"] { c.case(1); c.ensure("balance:json-bad", serde_json::from_str::<BalanceWrapper<u128>>(&format!("{{\"amount\":{bad}}}")).is_err(), || format!("{bad} was read as a balance")); }
    // metadata
    for fee in AMTS { for n in [0usize, 1, 63, 64, 300] { let m = CustomMetadata { fee_per_second: fee, coingecko_id: (0..n).map(|i| i as u8).collect() }; c.case(1);
        let mut w = fee.to_le_bytes().to_vec(); if n < 64 { w.push((n as u8) << 2) } else { w.extend((((n as u16) << 2) | 1).to_le_bytes()) } w.extend(&m.coingecko_id);
        c.ensure("metadata", m.encode() == w && CustomMetadata::decode_all(&mut &w[..]).ok().as_ref() == Some(&m), || format!("{m:?}")); } }
    c.sample("issue request with griefing_collateral 2^128-1: encoded as account, currencies, opentime, period, ...; JSON amounts as decimal strings");
}

fn numbers(c: &mut Ctx) {
    // hashes: bytes, text and numbers
    let mut hs: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32]];
    let mut asc = [0u8; 32]; for i in 0..32 { asc[i] = i as u8; } hs.push(asc); asc.reverse(); hs.push(asc);
    for i in 0..32 { for b in [1u8, 0x80, 0xff, 0x0f, 0xf0] { let mut a = [0u8; 32]; a[i] = b; hs.push(a); let mut b2 = [0xffu8; 32]; b2[i] = b; hs.push(b2); } }
    for a in &hs {
        let h = H256Le::from_bytes_le(a);
        let mut be = *a; be.reverse();
        c.case(1);
        let tr = |c: &mut Ctx, m: &str| c.fail(format!("h256:{m}"), "conversion disagrees".to_string(), vec![hex(a)]);
        if h.to_bytes_le() != *a || h.to_bytes_be() != be || H256Le::from_bytes_be(&be) != h { tr(c, "bytes") }
        let (le_t, be_t): (String, String) = (a.iter().map(|b| format!("{b:02x}")).collect(), be.iter().map(|b| format!("{b:02x}")).collect());
        if h.to_hex_le() != le_t || h.to_hex_be() != be_t || H256Le::from_hex_le(&le_t) != h || H256Le::from_hex_be(&be_t) != h { tr(c, "hex") }
        if format!("{h}") != format!("0x{be_t}") || format!("{h:x}") != be_t { tr(c, "display") }
        // number: sum of byte i times 256^i
        let mut n = U256::zero(); for i in (0..32).rev() { n = (n << 8) | U256::from(a[i]); }
        if h.as_u256() != n { tr(c, "number") }
        if h.is_zero() != a.iter().all(|b| *b == 0) { tr(c, "zero") }
        if !(H256(be) == h) || !(h == H256(be)) || (*a != be && H256(*a) == h) { tr(c, "h256") }
        codec_case(c, "h256", &h, a, true);
        json_case(c, "h256", &h, &format!("{{\"content\":{:?}}}", a));
    }
    c.ensure("h256:zero", H256Le::zero().to_bytes_le() == [0; 32] && H256Le::default() == H256Le::zero(), || "zero".into());
    let ints: Vec<u64> = [0u64, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX].to_vec();
    for &n in &ints {
        c.case(1);
        c.ensure("h256:from-int", H256Le::from(n).as_u256() == U256::from(n), || format!("u64 {n}"));
        if let Ok(x) = u32::try_from(n) { c.ensure("h256:from-int", H256Le::from(x).as_u256() == U256::from(n), || format!("u32 {n}")); }
        if let Ok(x) = i64::try_from(n) { c.ensure("h256:from-int", H256Le::from(x).as_u256() == U256::from(n), || format!("i64 {n}")); }
        if let Ok(x) = i32::try_from(n) { c.ensure("h256:from-int", H256Le::from(x).as_u256() == U256::from(n), || format!("i32 {n}")); }
        if let Ok(x) = i16::try_from(n) { c.ensure("h256:from-int", H256Le::from(x).as_u256() == U256::from(n), || format!("i16 {n}")); }
        if let Ok(x) = i8::try_from(n) { c.ensure("h256:from-int", H256Le::from(x).as_u256() == U256::from(n), || format!("i8 {n}")); }
    }
    for n in 0..=u16::MAX { c.case(1); c.ensure("h256:from-int", H256Le::from(n).as_u256() == U256::from(n) && (n > 255 || H256Le::from(n as u8).as_u256() == U256::from(n)), || format!("u16 {n}")); }
    // fixed point: whole numbers in and out, fractions truncated towards zero
    const ACC: u128 = 1_000_000_000_000_000_000;
    let max_int = i128::MAX as u128 / ACC;
    let edge: Vec<u128> = vec![0, 1, 2, 255, ACC - 1, ACC, ACC + 1, u64::MAX as u128, max_int - 1, max_int, max_int + 1, max_int * 2, i128::MAX as u128 - 1, i128::MAX as u128, i128::MAX as u128 + 1, u128::MAX / ACC, u128::MAX - 1, u128::MAX];
    for &n in &edge {
        c.case(1);
        let f: Option<SignedFixedPoint> = n.to_fixed();
        let want = if n <= max_int { Some((n * ACC) as i128) } else { None };
        c.ensure("fixed:to_fixed", f.map(|x| x.into_inner()) == want, || format!("{n}.to_fixed() is {f:?}"));
        if let Some(x) = f { c.ensure("fixed:roundtrip", x.truncate_to_inner() == Some(n as i128), || format!("{n} there and back")); }
        let u = UnsignedFixedPoint::from_inner(n);
        c.ensure("fixed:truncate", u.truncate_to_inner() == Some(n / ACC), || format!("unsigned inner {n}: {:?}", u.truncate_to_inner()));
        for s in [1i128, -1] { if n <= i128::MAX as u128 { let i = s * n as i128; let v = SignedFixedPoint::from_inner(i); c.ensure("fixed:truncate", v.truncate_to_inner() == Some(i / ACC as i128), || format!("signed inner {i}")); } }
    }
    c.ensure("fixed:truncate", SignedFixedPoint::from_inner(i128::MIN).truncate_to_inner() == Some(i128::MIN / ACC as i128), || "minimum".into());
    // every pair (whole, fraction) of a small grid
    for w in 0..200i128 { for fr in [0i128, 1, ACC as i128 / 2, ACC as i128 - 1] { for s in [1i128, -1] { c.case(1); let i = s * (w * ACC as i128 + fr); c.ensure("fixed:truncate", SignedFixedPoint::from_inner(i).truncate_to_inner() == Some(s * w), || format!("{i}")); } } }
    c.ensure("network-names", BITCOIN_MAINNET == "bitcoin-mainnet" && BITCOIN_TESTNET == "bitcoin-testnet" && BITCOIN_REGTEST == "bitcoin-regtest", || "network names".into());
    c.sample("H256Le::from(65536u32).as_u256() = 65536; to_hex_be is the byte-reversed text");
}
use sp_runtime::FixedPointNumber;
