//! R04: all transactions of up to four outputs over an alphabet of outputs, against the payment rules.
use bitcoin::{Address, Script};
use codec::Encode;
use kit::*;
use rt::{btc::*, *};

#[derive(Clone, Debug, PartialEq)]
enum Out { Pay(i64, usize), Ret(i64, Vec<u8>), Odd }
fn addresses() -> Vec<Address> { vec![Address::P2PKH(H160([1; 20])), Address::P2PKH(H160([2; 20])), Address::P2SH(H160([1; 20])), Address::P2WPKHv0(H160([1; 20])), Address::P2WSHv0(H256([1; 32]))] }
fn output(o: &Out, a: &[Address]) -> TransactionOutput {
    match o {
        Out::Pay(v, i) => TransactionOutput::payment(*v, &a[*i]),
        Out::Ret(v, d) => TransactionOutput::op_return(*v, d),
        Out::Odd => { let mut s = Script::new(); s.append(0x51u8); TransactionOutput { value: 0, script: s } }
    }
}
/// a redeem or replace payment: at most three outputs, exactly one OP_RETURN of exactly the id with nothing in it, exactly
/// the amount to the recipient, and at most one other output that pays a different address
fn valid(t: &[Out], to: usize, amount: i64, id: &[u8]) -> bool {
    let pays: Vec<(i64, usize)> = t.iter().filter_map(|o| if let Out::Pay(v, i) = o { Some((*v, *i)) } else { None }).collect();
    let rets: Vec<&Out> = t.iter().filter(|o| matches!(o, Out::Ret(..))).collect();
    t.len() <= 3 && pays.len() + rets.len() == t.len() && rets.len() == 1 && *rets[0] == Out::Ret(0, id.to_vec())
        && (1..=2).contains(&pays.len()) && (pays.len() == 1 || pays[0].1 != pays[1].1) && pays.iter().any(|p| *p == (amount, to))
}
pub fn r04(ctx: &mut Ctx) {
    let id = vec![0xab; 32];
    let a = addresses();
    let mut alphabet = vec![Out::Pay(500, 0), Out::Pay(499, 0), Out::Pay(501, 0), Out::Pay(0, 0), Out::Pay(500, 1), Out::Pay(70, 1), Out::Pay(500, 2), Out::Pay(500, 3), Out::Pay(500, 4),
        Out::Ret(0, id.clone()), Out::Ret(1, id.clone()), Out::Ret(0, id[1..].to_vec()), Out::Ret(0, [&id[..], &[1]].concat()), Out::Ret(0, { let mut x = id.clone(); x[31] ^= 1; x }), Out::Ret(0, vec![]), Out::Odd];
    if ctx.thorough() { alphabet.extend([Out::Pay(-500, 0), Out::Pay(i64::MAX, 0), Out::Pay(i64::MIN, 1), Out::Ret(0, { let mut x = id.clone(); x[0] ^= 0x80; x }), Out::Ret(-1, id.clone()), Out::Ret(0, vec![0xab; 64])]) }
    let n = alphabet.len();
    let g = Genesis { vaults: 0, ..Default::default() }.build();
    let mut txs: Vec<Vec<usize>> = vec![];
    for k in 0..=4usize { tuples(n, k, |t| txs.push(t.to_vec())) }
    let chunks: Vec<Vec<Vec<usize>>> = txs.chunks(2000).map(|c| c.to_vec()).collect();
    let expected: Vec<i64> = if ctx.thorough() { vec![500, 499, 0, -500, i64::MAX] } else { vec![500, 0] };
    for with_proof in [false, true] {
        par(ctx, &chunks, |ctx, c| {
            mcstore::isolated(g.clone(), || {
                let mut key = sp_core::twox_128(b"BTCRelay").to_vec();
                key.extend_from_slice(&sp_core::twox_128(b"DisableInclusionCheck"));
                if !with_proof { mcstore::put(&key, &true.encode()) }
                for t in c {
                    // the whole path including the proof: for all transactions of up to two outputs
                    if with_proof && t.len() > 2 { continue }
                    let outs: Vec<Out> = t.iter().map(|i| alphabet[*i].clone()).collect();
                    if with_proof && t.is_empty() { continue }
                    let tr = payment(1, outs.iter().map(|o| output(o, &a)).collect());
                    let pr = if with_proof {
                        mcstore::begin();
                        confirm(tr)
                    } else {
                        let b = PartialTransactionProof { tx_encoded_len: 0, transaction: tr, merkle_proof: bitcoin::merkle::MerkleProof { block_header: Default::default(), transactions_count: 0, hashes: vec![], flag_bits: vec![] } };
                        FullTransactionProof { user_tx_proof: b.clone(), coinbase_proof: b }
                    };
                    for to in 0..a.len() {
                        for amount in &expected {
                            let got = BTCRelay::verify_and_validate_op_return_transaction(pr.clone(), a[to], *amount, H256::from_slice(&id)).is_ok();
                            let want = valid(&outs, to, *amount, &id);
                            ctx.case(1);
                            ctx.outcome(if want { "payment" } else { "no payment" });
                            if got != want { ctx.fail(if got { "accepted" } else { "refused" }, format!("payment of {} to address {} by outputs {:?}: {}", amount, to, outs, if got { "accepted" } else { "refused" }), vec![format!("{:?}", outs)]) }
                        }
                        // issue: the first output to the deposit address counts
                        let want = outs.iter().find_map(|o| if let Out::Pay(v, i) = o { (*i == to).then_some(*v) } else { None });
                        let got = BTCRelay::get_and_verify_issue_payment::<i64>(pr.clone(), a[to]).ok();
                        ctx.case(1);
                        if got != want { ctx.fail("issue", format!("deposit to address {} by outputs {:?} counts as {:?}, expected {:?}", to, outs, got, want), vec![format!("{:?}", outs)]) }
                        let unsigned = BTCRelay::get_and_verify_issue_payment::<u128>(pr.clone(), a[to]).ok();
                        if unsigned != want.and_then(|x| u128::try_from(x).ok()) { ctx.fail("issue-negative", format!("deposit to address {} by outputs {:?} counts as {:?}", to, outs, unsigned), vec![format!("{:?}", outs)]) }
                    }
                    if with_proof { mcstore::rollback() }
                }
            });
        });
    }
    ctx.bound(format!("all {} transactions of 0 to 4 outputs over {} outputs, every one of {} addresses as recipient, expected amounts {:?}; with mined blocks and proofs for up to two outputs", txs.len(), n, a.len(), expected));
    ctx.sample("outputs [Pay(500, 0), Ret(0, id)] pay 500 to address 0; [Pay(500, 0), Pay(70, 0), Ret(0, id)] do not");
}
