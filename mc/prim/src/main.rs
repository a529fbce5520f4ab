//! M02: identifiers and request records. Every value of the stated alphabet against an independent byte layout (SCALE: variant index,
//! then the fields little endian), uniqueness, decoding of every short and every mutated byte string, the token table, the pair and
//! LP-token constructors, the JSON form of the records, and the conversions of hashes and fixed-point numbers.
mod layout;
use codec::{Decode, DecodeAll, Encode, MaxEncodedLen};
use kit::{guard, hex, Ctx};
use layout::*;
use primitives::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

const IDS: [u32; 9] = [0, 1, 2, 255, 256, 65_535, 65_536, 0x0100_0000, u32::MAX];
/// name, decimals, symbol, number: the published table of the two networks
const TABLE: [(TokenSymbol, &str, &str, u8, u8); 6] = [
    (TokenSymbol::DOT, "Polkadot", "DOT", 10, 0), (TokenSymbol::IBTC, "interBTC", "IBTC", 8, 1), (TokenSymbol::INTR, "Interlay", "INTR", 10, 2),
    (TokenSymbol::KSM, "Kusama", "KSM", 12, 10), (TokenSymbol::KBTC, "kBTC", "KBTC", 8, 11), (TokenSymbol::KINT, "Kintsugi", "KINT", 12, 12),
];
fn num(t: TokenSymbol) -> u8 { TABLE.iter().find(|x| x.0 == t).unwrap().4 }

fn lps(ids: &[u32]) -> Vec<LpToken> {
    let mut v: Vec<LpToken> = TABLE.iter().map(|t| LpToken::Token(t.0)).collect();
    v.extend(ids.iter().map(|&i| LpToken::ForeignAsset(i))); v.extend(ids.iter().map(|&i| LpToken::StableLpToken(i))); v
}
fn currencies(ids: &[u32]) -> Vec<CurrencyId> {
    let mut v: Vec<CurrencyId> = TABLE.iter().map(|t| CurrencyId::Token(t.0)).collect();
    for &i in ids { v.push(CurrencyId::ForeignAsset(i)); v.push(CurrencyId::LendToken(i)); v.push(CurrencyId::StableLpToken(i)); }
    let l = lps(ids);
    for a in &l { for b in &l { v.push(CurrencyId::LpToken(*a, *b)) } }
    v
}

/// encodes as specified, decodes to itself, every proper prefix and every extension is refused, the stated maximum length holds
fn codec_case<T: Encode + Decode + MaxEncodedLen + PartialEq + Debug>(c: &mut Ctx, what: &str, v: &T, want: &[u8], prefixes: bool) -> Vec<u8> {
    let e = v.encode();
    c.case(1);
    let tr = |c: &mut Ctx, key: &str, m: String| c.fail(format!("{what}:{key}"), m, vec![format!("{v:?}")]);
    if e != want { tr(c, "layout", format!("encodes to {}, expected {}", hex(&e), hex(want))); }
    if v.encoded_size() != e.len() { tr(c, "size", format!("encoded_size {} but {} bytes", v.encoded_size(), e.len())); }
    if e.len() > T::max_encoded_len() { tr(c, "maxlen", format!("{} bytes, max_encoded_len {}", e.len(), T::max_encoded_len())); }
    match T::decode_all(&mut &e[..]) { Ok(d) if &d == v => {} d => tr(c, "roundtrip", format!("decodes to {d:?}")) }
    if prefixes {
        for n in 0..e.len() { if T::decode_all(&mut &e[..n]).is_ok() { tr(c, "prefix", format!("its first {n} bytes decode as well")); } }
        let mut x = e.clone(); x.push(0);
        let mut r = &x[..]; if T::decode(&mut r).ok().as_ref() != Some(v) || r.len() != 1 { tr(c, "extent", "reads more or less than its encoding from a longer input".into()); }
    }
    e
}
/// whatever decodes must encode back to the bytes that were read, and agree with the independent parser
fn bytes_case<T: Encode + Decode + PartialEq + Debug>(c: &mut Ctx, what: &str, b: &[u8], reference: fn(&mut &[u8]) -> Option<()>) {
    let mut r = b; let got = T::decode(&mut r);
    let used = b.len() - r.len();
    let mut rr = b; let want = reference(&mut rr); let wused = b.len() - rr.len();
    c.case(1);
    match (&got, want) {
        (Ok(v), Some(())) => { if used != wused || v.encode() != b[..used] { c.fail(format!("{what}:bytes"), format!("decodes as {v:?} from {used} bytes, the layout says {wused}"), vec![hex(b)]) } }
        (Err(_), None) => {}
        (Ok(v), None) => c.fail(format!("{what}:accepts"), format!("accepted as {v:?}, not a value"), vec![hex(b)]),
        (Err(_), Some(())) => c.fail(format!("{what}:refuses"), "a valid encoding is refused".to_string(), vec![hex(b)]),
    }
}

fn tokens(c: &mut Ctx) {
    for (t, name, sym, dec, n) in TABLE {
        let tr = || vec![sym.to_string()];
        c.case(1);
        c.ensure("token:number", <TokenSymbol as Into<u8>>::into(t) == n && t as u8 == n, || format!("{sym} is number {}", t as u8));
        c.ensure("token:info", CurrencyInfo::name(&t) == name && CurrencyInfo::symbol(&t) == sym && CurrencyInfo::decimals(&t) == dec, || format!("{sym}: {} {} {}", CurrencyInfo::name(&t), CurrencyInfo::symbol(&t), CurrencyInfo::decimals(&t)));
        c.ensure("token:one", t.one() == 10u128.pow(dec as u32), || format!("one {sym} is {}", t.one()));
        c.ensure("token:info-table", TokenSymbol::get_info().iter().filter(|x| x.0 == sym).map(|x| x.1).collect::<Vec<_>>() == vec![dec as u32], || format!("get_info for {sym}"));
        c.ensure("token:ticker", TokenSymbol::try_from(sym.as_bytes().to_vec()) == Ok(t), || format!("ticker {sym}"));
        codec_case(c, "token", &t, &[n], true);
        json_case(c, "token", &t, &format!("\"{sym}\""));
        let _ = tr;
    }
    c.ensure("token:const", [DOT, IBTC, INTR, KSM, KBTC, KINT] == [TokenSymbol::DOT, TokenSymbol::IBTC, TokenSymbol::INTR, TokenSymbol::KSM, TokenSymbol::KBTC, TokenSymbol::KINT], || "constants".into());
    c.ensure("token:info-table", TokenSymbol::get_info().len() == 6, || "get_info length".into());
    let by: BTreeMap<u8, TokenSymbol> = TABLE.iter().map(|t| (t.4, t.0)).collect();
    for n in 0..=255u8 {
        c.case(1);
        let got = TokenSymbol::try_from(n).ok();
        c.ensure("token:from-number", got == by.get(&n).copied(), || format!("number {n} is {got:?}"));
    }
    // every byte string of up to two bytes, every string over the upper- and lower-case letters in use of up to five, and every one-byte change of a ticker
    let tick: BTreeMap<Vec<u8>, TokenSymbol> = TABLE.iter().map(|t| (t.2.as_bytes().to_vec(), t.0)).collect();
    let mut one = |c: &mut Ctx, s: Vec<u8>| { c.case(1); let got = TokenSymbol::try_from(s.clone()).ok(); if got != tick.get(&s).copied() { c.fail("token:from-ticker", format!("ticker {:?} is {got:?}", String::from_utf8_lossy(&s)), vec![hex(&s)]) } };
    for n in 0..=2 { kit::tuples(256, n, |x| one(c, x.iter().map(|&b| b as u8).collect())) }
    let letters: Vec<u8> = "BCDIKMNORSTik".bytes().collect();
    for n in 3..=c.pick(4, 5) { kit::tuples(letters.len(), n, |x| one(c, x.iter().map(|&b| letters[b]).collect())) }
    for t in TABLE { let s = t.2.as_bytes(); for i in 0..s.len() { for b in 0..=255u8 { let mut x = s.to_vec(); x[i] = b; one(c, x) } } for b in 0..=255u8 { let mut x = s.to_vec(); x.push(b); one(c, x.clone()); x.rotate_right(1); one(c, x) } }
}

fn json_case<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(c: &mut Ctx, what: &str, v: &T, want: &str) {
    c.case(1);
    let j = serde_json::to_value(v);
    let w: serde_json::Value = serde_json::from_str(want).unwrap();
    match &j { Ok(j) if *j == w => {} j => { c.fail(format!("{what}:json"), format!("JSON form {j:?}, expected {want}"), vec![format!("{v:?}")]); return } }
    let text = serde_json::to_string(v).unwrap();
    match serde_json::from_str::<T>(&text) { Ok(d) if d == *v => {} _ => c.fail(format!("{what}:json-back"), "does not read back from its JSON form".to_string(), vec![text]) }
}
fn jl(l: &LpToken) -> String { match l { LpToken::Token(t) => format!("{{\"token\":\"{t:?}\"}}"), LpToken::ForeignAsset(i) => format!("{{\"foreignAsset\":{i}}}"), LpToken::StableLpToken(i) => format!("{{\"stableLpToken\":{i}}}") } }
fn jc(x: &CurrencyId) -> String { match x {
    CurrencyId::Token(t) => format!("{{\"token\":\"{t:?}\"}}"), CurrencyId::ForeignAsset(i) => format!("{{\"foreignAsset\":{i}}}"), CurrencyId::LendToken(i) => format!("{{\"lendToken\":{i}}}"),
    CurrencyId::StableLpToken(i) => format!("{{\"stableLpToken\":{i}}}"), CurrencyId::LpToken(a, b) => format!("{{\"lpToken\":[{},{}]}}", jl(a), jl(b)) } }

fn ids(c: &mut Ctx) {
    let all = currencies(&IDS);
    let mut seen: BTreeMap<Vec<u8>, CurrencyId> = BTreeMap::new();
    for x in &all {
        let e = codec_case(c, "currency", x, &lay_currency(x), true);
        if let Some(o) = seen.insert(e, *x) { if o != *x { c.fail("currency:unique", format!("{o:?} and {x:?} have the same encoding"), vec![]) } }
        json_case(c, "currency", x, &jc(x));
        json_case(c, "oracle-key", &oracle::Key::ExchangeRate(*x), &format!("{{\"exchangeRate\":{}}}", jc(x)));
        let mut w = vec![0u8]; w.extend(lay_currency(x));
        codec_case(c, "oracle-key", &oracle::Key::ExchangeRate(*x), &w, false);
        // classification
        c.ensure("currency:is_lend_token", x.is_lend_token() == matches!(x, CurrencyId::LendToken(_)), || format!("{x:?}"));
        c.ensure("currency:is_lp_token", x.is_lp_token() == matches!(x, CurrencyId::Token(_) | CurrencyId::ForeignAsset(_) | CurrencyId::StableLpToken(_)), || format!("{x:?}"));
        let mut s = *x; s.sort(); let mut s2 = s; s2.sort();
        c.ensure("currency:sort", s2 == s, || format!("sorting {x:?} twice"));
        match (x, s) { (CurrencyId::LpToken(a, b), CurrencyId::LpToken(p, q)) => { c.ensure("currency:sort", (p, q) == if order(a) <= order(b) { (*a, *b) } else { (*b, *a) } && order(&p) <= order(&q), || format!("{x:?} sorted is {s:?}")); } (x, s) => { c.ensure("currency:sort", s == *x, || format!("{x:?} sorted is {s:?}")); } }
    }
    codec_case(c, "oracle-key", &oracle::Key::FeeEstimation, &[1], true);
    json_case(c, "oracle-key", &oracle::Key::FeeEstimation, "\"feeEstimation\"");
    // LP tokens and joining
    for l in lps(&IDS) {
        codec_case(c, "lp", &l, &lay_lp(&l), true);
        json_case(c, "lp", &l, &jl(&l));
        let cur: CurrencyId = l.into();
        c.ensure("lp:into", lay_currency(&cur) == { let mut e = lay_lp(&l); e[0] = match l { LpToken::Token(_) => 0, LpToken::ForeignAsset(_) => 1, LpToken::StableLpToken(_) => 4 }; e } && cur.is_lp_token(), || format!("{l:?} as currency is {cur:?}"));
    }
    let as_lp = |x: &CurrencyId| match x { CurrencyId::Token(t) => Some(LpToken::Token(*t)), CurrencyId::ForeignAsset(i) => Some(LpToken::ForeignAsset(*i)), CurrencyId::StableLpToken(i) => Some(LpToken::StableLpToken(*i)), _ => None };
    for x in &all { for y in &all {
        c.case(1);
        let want = match (as_lp(x), as_lp(y)) { (Some(a), Some(b)) => Some(CurrencyId::LpToken(a, b)), _ => None };
        let got = CurrencyId::join_lp_token(*x, *y);
        if got != want { c.fail("currency:join", format!("join of {x:?} and {y:?} is {got:?}"), vec![]); if c.stop() { return } }
        if let Some(CurrencyId::LpToken(a, b)) = got { let (a, b): (CurrencyId, CurrencyId) = (a.into(), b.into()); c.ensure("currency:join", (a, b) == (*x, *y), || format!("parts of {got:?}")); }
    } }
    // pairs and vaults: uniqueness over all pairs; accounts of different lengths are of one type in practice, use u64 and 32 bytes
    let few = currencies(&[0, 1, 256, u32::MAX]);
    let mut pairs: BTreeSet<Vec<u8>> = BTreeSet::new();
    for (i, x) in few.iter().enumerate() { for (j, y) in few.iter().enumerate() {
        let p = VaultCurrencyPair { collateral: *x, wrapped: *y };
        let mut w = lay_currency(x); w.extend(lay_currency(y));
        let e = codec_case(c, "pair", &p, &w, (i + j) % 7 == 0);
        if !pairs.insert(e) { c.fail("pair:unique", format!("{p:?} encodes like another pair"), vec![]) }
        if c.stop() { return }
        for a in [0u64, 1, 255, 256, u64::MAX] {
            let v = VaultId::new(a, *x, *y);
            c.case(1);
            c.ensure("vault:accessors", v.account_id == a && v.collateral_currency() == *x && v.wrapped_currency() == *y && v.currencies == p, || format!("{v:?}"));
            c.ensure("vault:constructors", v == VaultId::from_pair(a, p.clone()) && v == VaultId::from((a, p.clone())), || format!("{v:?}"));
            let mut w2 = a.to_le_bytes().to_vec(); w2.extend(&w);
            if v.encode() != w2 || VaultId::<u64, CurrencyId>::decode_all(&mut &w2[..]).ok().as_ref() != Some(&v) { c.fail("vault:layout", "vault id does not encode as account, collateral, wrapped".to_string(), vec![format!("{v:?}")]) }
        }
        if i < 12 && j < 12 { json_case(c, "pair", &p, &format!("{{\"collateral\":{},\"wrapped\":{}}}", jc(x), jc(y))); json_case(c, "vault", &VaultId::new(7u64, *x, *y), &format!("{{\"account_id\":7,\"currencies\":{{\"collateral\":{},\"wrapped\":{}}}}}", jc(x), jc(y))); }
    } }
    // decoding: every short string, every one-byte change of every valid encoding
    let n = c.pick(2, 3);
    for k in 0..=n { kit::tuples(256, k, |x| { let b: Vec<u8> = x.iter().map(|&v| v as u8).collect(); bytes_case::<CurrencyId>(c, "currency", &b, |r| par_currency(r)); bytes_case::<LpToken>(c, "lp", &b, |r| par_lp(r)); bytes_case::<TokenSymbol>(c, "token", &b, |r| par_token(r)); bytes_case::<oracle::Key>(c, "oracle-key", &b, par_key); }) }
    for x in currencies(&[0, 0x0102_0304]) { let e = lay_currency(&x); for i in 0..e.len() { for b in 0..=255u8 { let mut y = e.clone(); y[i] = b; bytes_case::<CurrencyId>(c, "currency", &y, |r| par_currency(r)); let mut k = vec![0]; k.extend(&y); bytes_case::<oracle::Key>(c, "oracle-key", &k, par_key); } } }
    c.sample("CurrencyId::LpToken(Token(KSM), StableLpToken(256)) = 03 00 0a 02 00010000");
}

/// order by variant, then by number
fn order(l: &LpToken) -> (u8, u32) { match l { LpToken::Token(t) => (0, num(*t) as u32), LpToken::ForeignAsset(i) => (1, *i), LpToken::StableLpToken(i) => (2, *i) } }

fn m02(ctx: &mut Ctx) {
    ctx.bound(format!("all token symbols; foreign, lend and stable ids in {IDS:?}; all pairs of LP tokens; all vault pairs over ids 0, 1, 256, 2^32-1; all byte strings of up to {} bytes and every one-byte change of the encodings; request records: every field at its edges, pairwise", ctx.pick(2, 3)));
    ctx.assume("the byte layouts are those of SCALE (variant index, then the fields in order), the JSON names camelCase, amounts as decimal strings");
    let jobs: Vec<(&str, fn(&mut Ctx))> = vec![("tokens", tokens), ("ids", ids), ("records", records), ("numbers", numbers)];
    kit::par(ctx, &jobs, |c, (n, f)| { if let Err(p) = guard(|| f(c)) { c.fail("panic", format!("{n}: {p}"), vec![]) } c.outcome(n); });
}
include!("records.rs");
fn main() { kit::main_with(&[("M02", m02)]) }
