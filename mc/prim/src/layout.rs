//! the byte layouts, written from the SCALE rules; no use of the codec derive
use primitives::*;
pub fn le4(n: u32) -> [u8; 4] { n.to_le_bytes() }
pub fn tok(t: TokenSymbol) -> u8 { use TokenSymbol::*; match t { DOT => 0, IBTC => 1, INTR => 2, KSM => 10, KBTC => 11, KINT => 12 } }
pub fn lay_lp(l: &LpToken) -> Vec<u8> { match l { LpToken::Token(t) => vec![0, tok(*t)], LpToken::ForeignAsset(i) => { let mut v = vec![1]; v.extend(le4(*i)); v } LpToken::StableLpToken(i) => { let mut v = vec![2]; v.extend(le4(*i)); v } } }
pub fn lay_currency(c: &CurrencyId) -> Vec<u8> {
    let n = |k: u8, i: u32| { let mut v = vec![k]; v.extend(le4(i)); v };
    match c {
        CurrencyId::Token(t) => vec![0, tok(*t)],
        CurrencyId::ForeignAsset(i) => n(1, *i),
        CurrencyId::LendToken(i) => n(2, *i),
        CurrencyId::LpToken(a, b) => { let mut v = vec![3]; v.extend(lay_lp(a)); v.extend(lay_lp(b)); v }
        CurrencyId::StableLpToken(i) => n(4, *i),
    }
}
fn take<'a>(r: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { if r.len() < n { return None } let (a, b) = r.split_at(n); *r = b; Some(a) }
pub fn par_token(r: &mut &[u8]) -> Option<()> { let b = take(r, 1)?[0]; [0, 1, 2, 10, 11, 12].contains(&b).then_some(()) }
pub fn par_lp(r: &mut &[u8]) -> Option<()> { match take(r, 1)?[0] { 0 => par_token(r), 1 | 2 => take(r, 4).map(|_| ()), _ => None } }
pub fn par_currency(r: &mut &[u8]) -> Option<()> { match take(r, 1)?[0] { 0 => par_token(r), 1 | 2 | 4 => take(r, 4).map(|_| ()), 3 => { par_lp(r)?; par_lp(r) } _ => None } }
pub fn par_key(r: &mut &[u8]) -> Option<()> { match take(r, 1)?[0] { 0 => par_currency(r), 1 => Some(()), _ => None } }
