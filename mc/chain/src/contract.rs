// T04: what a smart contract on kintsugi learns about a Bitcoin payment. Included in the module of the runtime.
use kit::{guard, Ctx};
use super::contracts::BtcRelayExtension;
use crate::stubs::pallet_contracts::chain_extension::{ChainExtension, Environment, Ext};
use bitcoin::{merkle::{MerkleProof, PartialTransactionProof}, types::{FullTransactionProof, Transaction, TransactionInput, TransactionInputSource, TransactionOutput}, Address};
use codec::Encode;
use sp_core::{H160, H256};

fn no_inclusion_check() { let mut k = sp_core::twox_128(b"BTCRelay").to_vec(); k.extend(sp_core::twox_128(b"DisableInclusionCheck")); mcstore::put(&k, &true.encode()) }
struct Contract;
impl Ext for Contract { type T = Runtime; }
fn ask(id: u16, input: Vec<u8>) -> Result<(Result<(), String>, Option<Vec<u8>>), String> {
    let mut out = None;
    let r = guard(|| BtcRelayExtension::default().call(Environment::<Contract, _> { id, input, out: &mut out, of: Default::default() }).map(|_| ()).map_err(|e| format!("{e:?}")))?;
    Ok((r, out))
}
fn proof(outs: Vec<TransactionOutput>) -> FullTransactionProof {
    let transaction = Transaction { version: 2, inputs: vec![TransactionInput { source: TransactionInputSource::FromOutput(Default::default(), 0), script: vec![], sequence: 0, witness: vec![] }], outputs: outs, lock_at: bitcoin::types::LockTime::BlockHeight(0) };
    let p = PartialTransactionProof { tx_encoded_len: 0, transaction, merkle_proof: MerkleProof { block_header: Default::default(), transactions_count: 0, hashes: vec![], flag_bits: vec![] } };
    FullTransactionProof { user_tx_proof: p.clone(), coinbase_proof: p }
}
fn input(p: &FullTransactionProof, address: &[u8]) -> Vec<u8> { (p, address.to_vec()).encode() }
pub fn contract(ctx: &mut Ctx) {
    let addresses = [Address::P2PKH(H160([1; 20])), Address::P2SH(H160([1; 20])), Address::P2WPKHv0(H160([1; 20])), Address::P2WSHv0(H256([1; 32])), Address::P2PKH(H160([2; 20]))];
    let values = [0i64, 1, 546, 2_100_000_000_000_000, i64::MAX, -1, i64::MIN];
    mcstore::isolated(Default::default(), || {
        no_inclusion_check();
        // every payment to up to three outputs
        let n = ctx.pick(2, 3);
        let choices: Vec<(usize, i64)> = (0..=addresses.len()).flat_map(|a| values.iter().map(move |v| (a, *v))).collect();
        ctx.bound(format!("transactions of up to {n} outputs, {} kinds of output each, asked about each of {} addresses", choices.len(), addresses.len()));
        for k in 0..=n { if k == 3 && !ctx.thorough() { break }
            let list: Vec<Vec<usize>> = { let mut v = vec![]; kit::tuples(choices.len(), k, |t| v.push(t.to_vec())); v };
            for t in list {
                let outs: Vec<TransactionOutput> = t.iter().map(|i| { let (a, v) = choices[*i]; if a == addresses.len() { TransactionOutput::op_return(v, &[5; 32]) } else { TransactionOutput::payment(v, &addresses[a]) } }).collect();
                let p = proof(outs);
                for (i, a) in addresses.iter().enumerate() {
                    let want: Option<u64> = t.iter().map(|c| choices[*c]).find(|(x, _)| *x == i).and_then(|(_, v)| u64::try_from(v).ok());
                    let got = ask(1101, input(&p, &a.encode()));
                    ctx.eq("answer", || format!("outputs {:?}, asked about {a:?}", t.iter().map(|c| choices[*c]).collect::<Vec<_>>()), &got, &Ok((Ok(()), Some(want.encode()))));
                    ctx.case(1);
                }
            }
        }
    });
    // a payment that is in no known block is no payment
    let paid = proof(vec![TransactionOutput::payment(1_000, &addresses[0])]);
    mcstore::isolated(Default::default(), || { ctx.eq("unproven", || "a payment without a block".into(), &ask(1101, input(&paid, &addresses[0].encode())), &Ok((Ok(()), Some(None::<u64>.encode())))); ctx.case(1); });
    mcstore::isolated(Default::default(), || {
        no_inclusion_check();
        // other functions do not exist
        for id in 0..=u16::MAX { if id != 1101 { match ask(id, input(&paid, &addresses[0].encode())) { Ok((Err(_), None)) => {} o => ctx.fail("other-function", format!("function {id}: {o:?}"), vec![]) } ctx.case(1) } }
        // whatever bytes a contract passes, the chain does not stop
        let good = input(&paid, &addresses[0].encode());
        let mut bytes: Vec<Vec<u8>> = (0..good.len()).map(|l| good[..l].to_vec()).collect();
        for i in 0..good.len() { for v in if ctx.thorough() { (0..=255u8).collect::<Vec<_>>() } else { vec![0, 1, 4, 5, 0x7f, 0xff] } { let mut b = good.clone(); b[i] = v; bytes.push(b) } }
        for a in &addresses { let e = a.encode(); for l in 0..=e.len() { bytes.push(input(&paid, &e[..l])) } for first in 0..=255u8 { let mut x = e.clone(); x[0] = first; bytes.push(input(&paid, &x)); } }
        ctx.bound(format!("{} inputs that are cut off or changed in one byte, {} numbers of functions", bytes.len(), 65_536));
        for b in bytes {
            match ask(1101, b.clone()) {
                Err(p) => ctx.fail("panic", format!("a contract stops the chain with the {} bytes {}: {p}", b.len(), kit::hex(&b)), vec![]),
                Ok((Ok(()), Some(o))) => { ctx.ensure("answer-format", <Option<u64> as codec::Decode>::decode(&mut &o[..]).is_ok(), || format!("an answer of {o:?}")); }
                Ok((Err(_), None)) => {}
                Ok(o) => ctx.fail("answer-and-error", format!("{o:?} for {}", kit::hex(&b)), vec![]),
            }
            ctx.case(1);
        }
    });
    money(ctx);
}
/// the currency contracts are given is the chain's own, except for the smallest balance
fn money(ctx: &mut Ctx) {
    use frame_support::traits::{Currency, ReservableCurrency, ExistenceRequirement as E, WithdrawReasons, tokens::{Fortitude, Preservation, Provenance}};
    use super::contracts::NativeCurrencyWithEd as C;
    type N = NativeCurrency;
    let a = |n: u8| AccountId::new([n; 32]);
    let amounts = [0u128, 1, 2, 5, 10, 11];
    #[derive(Clone, Copy, Debug)] enum M { Transfer(usize, E), Slash(usize), Reserve(usize), Unreserve(usize), SlashReserved(usize), Repatriate(usize), DepositCreating(usize), DepositExisting(usize), Withdraw(usize), Make(usize), Resolve(usize), Burn(usize) }
    let mut ops: Vec<M> = vec![];
    for i in 0..amounts.len() { ops.extend([M::Transfer(i, E::AllowDeath), M::Transfer(i, E::KeepAlive), M::Slash(i), M::Reserve(i), M::Unreserve(i), M::SlashReserved(i), M::Repatriate(i), M::DepositCreating(i), M::DepositExisting(i), M::Withdraw(i), M::Make(i), M::Resolve(i), M::Burn(i)]) }
    fn run<X: Currency<AccountId, Balance = u128> + ReservableCurrency<AccountId>>(m: M, amounts: &[u128]) -> String {
        let a = |n: u8| AccountId::new([n; 32]);
        match m {
            M::Transfer(i, e) => format!("{:?}", X::transfer(&a(1), &a(2), amounts[i], e)),
            M::Slash(i) => format!("{:?}", X::slash(&a(1), amounts[i]).1), M::Reserve(i) => format!("{:?} {}", X::reserve(&a(1), amounts[i]), X::can_reserve(&a(1), amounts[i])), M::Unreserve(i) => format!("{:?}", X::unreserve(&a(1), amounts[i])),
            M::SlashReserved(i) => format!("{:?}", X::slash_reserved(&a(1), amounts[i]).1), M::Repatriate(i) => format!("{:?}", X::repatriate_reserved(&a(1), &a(2), amounts[i], frame_support::traits::BalanceStatus::Free)),
            M::DepositCreating(i) => { X::deposit_creating(&a(3), amounts[i]); String::new() } M::DepositExisting(i) => format!("{:?}", X::deposit_into_existing(&a(2), amounts[i]).map(|_| ())),
            M::Withdraw(i) => format!("{:?}", X::withdraw(&a(1), amounts[i], WithdrawReasons::TRANSFER, E::KeepAlive).map(|_| ()).is_ok()), M::Make(i) => { X::make_free_balance_be(&a(1), amounts[i]); String::new() }
            M::Resolve(i) => { X::resolve_creating(&a(2), X::issue(amounts[i])); String::new() } M::Burn(i) => format!("{:?}", X::settle(&a(1), X::burn(amounts[i]), WithdrawReasons::all(), E::AllowDeath).is_ok()),
        }
    }
    let see = || (1..4u8).map(|n| (<N as Currency<AccountId>>::free_balance(&a(n)), N::reserved_balance(&a(n)))).collect::<Vec<_>>();
    let depth = ctx.pick(2, 3);
    ctx.bound(format!("the contracts' currency against the chain's own: every sequence of {depth} of {} operations", ops.len()));
    let seqs: Vec<Vec<usize>> = { let mut v = vec![]; kit::tuples(ops.len(), depth, |t| v.push(t.to_vec())); v };
    let (ops, amounts) = (&ops, &amounts);
    kit::par(ctx, &seqs, |ctx, t| {
        let play = |f: &dyn Fn(M) -> String| mcstore::isolated(Default::default(), || { drop(<N as Currency<AccountId>>::deposit_creating(&a(1), 10)); N::reserve(&a(1), 3).unwrap(); let r: Vec<String> = t.iter().map(|i| f(ops[*i])).collect(); (r, see(), <N as Currency<AccountId>>::total_issuance()) }).0;
        let (x, y) = (play(&|m| run::<C>(m, amounts)), play(&|m| run::<N>(m, amounts)));
        ctx.eq("currency", || format!("{:?} through the contracts' currency and the chain's own", t.iter().map(|i| ops[*i]).collect::<Vec<_>>()), &x, &y);
        ctx.case(1);
    });
    mcstore::isolated(Default::default(), || {
        drop(<N as Currency<AccountId>>::deposit_creating(&a(1), 10)); N::reserve(&a(1), 3).unwrap();
        use frame_support::traits::fungible::Inspect as F;
        for n in 1..4u8 { for v in amounts.iter() {
            ctx.eq("currency-queries", || format!("queries about account {n} and {v}"), &(<C as F<AccountId>>::balance(&a(n)), <C as F<AccountId>>::total_balance(&a(n)), <C as F<AccountId>>::total_issuance(), <C as Currency<AccountId>>::free_balance(&a(n)), <C as Currency<AccountId>>::can_slash(&a(n), *v), format!("{:?}{:?}", <C as F<AccountId>>::can_withdraw(&a(n), *v), <C as F<AccountId>>::can_deposit(&a(n), *v, Provenance::Extant))), &(<N as F<AccountId>>::balance(&a(n)), <N as F<AccountId>>::total_balance(&a(n)), <N as F<AccountId>>::total_issuance(), <N as Currency<AccountId>>::free_balance(&a(n)), <N as Currency<AccountId>>::can_slash(&a(n), *v), format!("{:?}{:?}", <N as F<AccountId>>::can_withdraw(&a(n), *v), <N as F<AccountId>>::can_deposit(&a(n), *v, Provenance::Extant))));
            ctx.case(1);
        } }
        ctx.eq("currency-minimum", || "the smallest balance".into(), &(<C as F<AccountId>>::minimum_balance(), <C as Currency<AccountId>>::minimum_balance()), &(1, 1));
    });
}
