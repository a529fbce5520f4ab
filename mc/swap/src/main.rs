//! C01: the BTC swap contract, driven through ink's off-chain environment. The chain extension is a stand-in that records what it was
//! asked and answers from the proof it was given; a trapped call has no effect (as on chain), so only successful calls extend a history.
include!(concat!(env!("OUT_DIR"), "/contract.rs"));
use bitcoin::Address as BtcAddress;
use bitcoin::merkle::PartialTransactionProof;
use bitcoin::types::*;
use btc_swap::BtcSwap;
use std::cell::RefCell;
use std::collections::BTreeMap;

type Acc = <CustomEnvironment as Environment>::AccountId;
fn acc(n: u8) -> Acc { Acc::from([n; 32]) }
const CONTRACT: u8 = 99;
const ENDOW: u128 = 1000;
const FUNDS: u128 = 100_000;
const MAKERS: [u8; 2] = [1, 2];
const EXEC: [u8; 3] = [3, 4, 1];

fn addr(i: u8) -> BtcAddress { if i == 0 { BtcAddress::P2PKH(primitive_types::H160([7; 20])) } else { BtcAddress::P2WPKHv0(primitive_types::H160([8; 20])) } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pay { To(u8, u64), Nothing, Refused }
fn pays() -> Vec<Pay> { vec![Pay::To(0, 4), Pay::To(0, 5), Pay::To(0, 6), Pay::To(0, 0), Pay::To(1, 5), Pay::To(1, u64::MAX), Pay::To(0, u64::MAX), Pay::Nothing, Pay::Refused] }

/// the proof object carrying payment `p`: told apart by the user transaction's version, lock time and outputs
fn proof(p: Pay) -> FullTransactionProof {
    let part = |v: i32, out: Vec<TransactionOutput>| PartialTransactionProof {
        transaction: Transaction { version: v, inputs: vec![], outputs: out, lock_at: LockTime::BlockHeight(0) }, tx_encoded_len: 60,
        merkle_proof: MerkleProof { block_header: BlockHeader::default(), flag_bits: vec![true], transactions_count: 1, hashes: vec![] },
    };
    let (v, outs) = match p {
        Pay::To(a, s) => (2, vec![TransactionOutput { value: s as i64, script: addr(a).to_script_pub_key() }]),
        Pay::Nothing => (2, vec![]),
        Pay::Refused => (3, vec![]),
    };
    FullTransactionProof { user_tx_proof: part(v, outs), coinbase_proof: part(1, vec![]) }
}

thread_local! { static ASKED: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = RefCell::new(vec![]); }
struct Ext;
impl ink::env::test::ChainExtension for Ext {
    fn func_id(&self) -> u32 { 1101 }
    fn call(&mut self, input: &[u8], output: &mut Vec<u8>) -> u32 {
        let (n, rest) = { let mut i = input; let n = <scale::Compact<u32> as scale::Decode>::decode(&mut i); (n, i) };
        let _ = n;
        // the off-chain engine hands over the encoded argument bytes (length-prefixed once)
        for cand in [input, rest] {
            let mut i = cand;
            if let Ok((p, a)) = <(FullTransactionProof, Vec<u8>) as scale::Decode>::decode(&mut i) { if i.is_empty() {
                ASKED.with(|x| x.borrow_mut().push((scale::Encode::encode(&p), a.clone())));
                if p.user_tx_proof.transaction.version == 3 { return 1 }
                let ad = <BtcAddress as scale::Decode>::decode(&mut &a[..]).expect("address bytes");
                let sats: Option<u64> = p.user_tx_proof.transaction.outputs.iter().find(|o| o.script == ad.to_script_pub_key()).map(|o| o.value as u64);
                scale::Encode::encode_to(&sats, output);
                return 0
            } }
        }
        panic!("extension called with something that is not (proof, address)");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Create { who: u8, addr: u8, min: u64, value: u128 }, Exec { who: u8, cp: u8, pay: Pay } }

#[derive(Clone, PartialEq, Debug)]
struct Model { orders: BTreeMap<u8, (u8, u64, u128)>, bal: BTreeMap<u8, u128> }
impl Model {
    fn new() -> Self { let mut bal: BTreeMap<u8, u128> = [1, 2, 3, 4].iter().map(|&a| (a, FUNDS)).collect(); bal.insert(CONTRACT, ENDOW); Model { orders: BTreeMap::new(), bal } }
    /// the specified effect; None if the call must fail
    fn step(&self, op: Op) -> Option<Model> {
        let mut m = self.clone();
        match op {
            Op::Create { who, addr, min, value } => {
                if min == 0 { return None }
                *m.bal.get_mut(&who).unwrap() -= value; *m.bal.get_mut(&CONTRACT).unwrap() += value;
                m.orders.insert(who, (addr, min, value));
            }
            Op::Exec { who, cp, pay } => {
                let &(a, min, v) = self.orders.get(&cp)?;
                let got = match pay { Pay::To(x, s) if x == a => s, Pay::Refused => return None, _ => 0 };
                if got < min { return None }
                m.orders.remove(&cp);
                *m.bal.get_mut(&CONTRACT).unwrap() -= v; *m.bal.get_mut(&who).unwrap() += v;
            }
        }
        Some(m)
    }
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for who in MAKERS { for (a, min, value) in [(0u8, 5u64, 10u128), (1, 5, 20), (0, 1, 0), (0, u64::MAX, 40), (0, 0, 10)] { v.push(Op::Create { who, addr: a, min, value }) } }
    for who in EXEC { for cp in [1u8, 2, 4] { for pay in pays() { v.push(Op::Exec { who, cp, pay }) } } }
    v
}

fn reset() -> BtcSwap {
    use ink::env::test::*;
    let _ = ink::env::test::run_test::<CustomEnvironment, _>(|_| Ok(()));
    // a fresh engine state: run_test resets balances and storage
    for a in [1u8, 2, 3, 4] { set_account_balance::<CustomEnvironment>(acc(a), FUNDS); }
    set_account_balance::<CustomEnvironment>(acc(CONTRACT), ENDOW);
    set_callee::<CustomEnvironment>(acc(CONTRACT));
    register_chain_extension(Ext);
    BtcSwap::new()
}
fn apply(c: &mut BtcSwap, op: Op) -> Result<(), String> {
    use ink::env::test::*;
    ASKED.with(|x| x.borrow_mut().clear());
    match op {
        Op::Create { who, addr: a, min, value } => {
            set_caller::<CustomEnvironment>(acc(who));
            transfer_in::<CustomEnvironment>(value);
            kit::guard(|| c.create_trade(addr(a), min))
        }
        Op::Exec { who, cp, pay } => {
            set_caller::<CustomEnvironment>(acc(who));
            set_value_transferred::<CustomEnvironment>(0);
            kit::guard(|| c.execute_trade(acc(cp), proof(pay)))
        }
    }
}
fn balances() -> BTreeMap<u8, u128> {
    [1u8, 2, 3, 4, CONTRACT].iter().map(|&a| (a, ink::env::test::get_account_balance::<CustomEnvironment>(acc(a)).unwrap())).collect()
}

/// every continuation of the history `h` (all of whose calls succeed) by one call, then recursively by the ones that succeed
fn explore(ctx: &mut kit::Ctx, h: &mut Vec<Op>, m: &Model, left: usize, ops: &[Op]) {
    for &op in ops {
        if ctx.stop() { return }
        let mut c = reset();
        for &o in h.iter() { if apply(&mut c, o).is_err() { ctx.fail("replay", "a call that succeeded fails when the same history is replayed", tr(h, op)); return } }
        let want = m.step(op);
        let got = apply(&mut c, op);
        ctx.transitions += 1; ctx.traces += 1;
        match (&want, &got) {
            (Some(w), Ok(())) => {
                let b = balances();
                if b != w.bal { ctx.fail("balances", format!("balances after the call are {b:?}, expected {:?}", w.bal), tr(h, op)); continue }
                if let Op::Exec { cp, pay, .. } = op {
                    ctx.outcome("paid");
                    let (a, _, _) = m.orders[&cp];
                    let q = (scale::Encode::encode(&proof(pay)), scale::Encode::encode(&addr(a)));
                    let asked = ASKED.with(|x| x.borrow().clone());
                    if !asked.contains(&q) { ctx.fail("query", "the payout was made without the extension being asked for this proof and the maker's address", tr(h, op)); continue }
                } else { ctx.outcome("created") }
                ctx.states += 1;
                if left > 1 { h.push(op); explore(ctx, h, w, left - 1, ops); h.pop(); }
            }
            (None, Err(_)) => ctx.outcome("refused"),
            (None, Ok(())) => {
                let b = balances();
                // returning normally without any effect is as good as trapping, for an execute
                if matches!(op, Op::Exec { .. }) && b == m.bal { ctx.outcome("no effect") }
                else { ctx.fail(if matches!(op, Op::Exec { .. }) { "paid-without-right" } else { "bad-order" }, format!("the call must not succeed here; balances {b:?}, before {:?}", m.bal), tr(h, op)) }
            }
            (Some(_), Err(e)) => ctx.fail("refused", format!("a call that must succeed trapped: {e}"), tr(h, op)),
        }
    }
    ctx.max_depth = ctx.max_depth.max(h.len() as u64 + 1);
}
fn tr(h: &[Op], op: Op) -> Vec<String> { h.iter().chain([&op]).map(|o| format!("{o:?}")).collect() }

fn c01(ctx: &mut kit::Ctx) {
    let depth = ctx.pick(4usize, 5);
    let ops = alphabet();
    ctx.bound(format!("two makers x 5 orders, three executors (one of them a maker), three counterparties (one without order), 9 payments (short by one, exact, over, to the wrong address, none, refused by the extension, u64::MAX): {} calls, every history of up to {depth} calls all but the last of which succeed", ops.len()));
    ctx.assume("ink's off-chain environment stands for pallet-contracts; the chain extension is a stand-in answering from the transaction outputs (the relay's own answer is decided by R03); a trapped call is rolled back by the chain");
    let first: Vec<Op> = ops.clone();
    kit::par(ctx, &first, |c, &op| {
        // first call fixed: one subtree per worker item
        let m = Model::new();
        explore(c, &mut vec![], &m, 1, &[op]);
        if let Some(w) = m.step(op) { if depth > 1 { explore(c, &mut vec![op], &w, depth - 1, &ops); } }
    });
    ctx.sample("create_trade(maker 1, P2PKH, 5 sat, 10 planck); execute_trade(3, maker 1, exact payment) pays 10; execute_trade(4, maker 1, exact payment) must fail");
}
fn main() { kit::main_with(&[("C01", c01)]) }
