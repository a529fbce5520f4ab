//! A regtest-like Bitcoin chain feeding the real relay, and payment proofs for it.
use crate::*;
pub use bitcoin::{
    merkle::PartialTransactionProof,
    types::{Block, BlockBuilder, FullTransactionProof, H256Le, Transaction, TransactionBuilder, TransactionInputBuilder, TransactionInputSource, TransactionOutput},
    Address as BtcAddress, PublicKey as BtcPublicKey,
};

pub fn target() -> sp_core::U256 { sp_core::U256::from(2).pow(254.into()) }
pub fn addr(n: u8) -> BtcAddress { BtcAddress::P2PKH(H160([n; 20])) }
/// compressed points G, 2G, 3G
pub fn pubkey(n: usize) -> BtcPublicKey {
    let h = ["0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", "02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9"][n];
    let mut b = [0u8; 33];
    for i in 0..33 { b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap() }
    BtcPublicKey(b)
}
pub fn build(prev: H256Le, height: u32, txs: &[Transaction]) -> Block {
    let mut b = BlockBuilder::new();
    b.with_previous_hash(prev).with_version(4).with_timestamp(1_600_000_000 + height).with_coinbase(&addr(0xcb), 50, height);
    for t in txs { b.add_transaction(t.clone()); }
    b.mine(target()).unwrap()
}
pub fn init() {
    let g = build(H256Le::zero(), 0, &[]);
    BTCRelay::initialize(signed(99), g.header, 0).unwrap();
}
pub fn height() -> u32 { BTCRelay::get_best_block_height() }
/// mine one block on the relay's best block and submit it
pub fn mine(txs: &[Transaction]) -> Block {
    let b = build(BTCRelay::get_best_block(), height() + 1, txs);
    BTCRelay::store_block_header(signed(99), b.header, 10).unwrap();
    b
}
pub fn mine_n(n: u32) { for _ in 0..n { mine(&[]); } }
/// a transaction with the given outputs; the input makes it unique
pub fn payment(uniq: u32, outs: Vec<TransactionOutput>) -> Transaction {
    let mut t = TransactionBuilder::new();
    t.with_version(2).add_input(TransactionInputBuilder::new().with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), uniq)).build());
    for o in outs { t.add_output(o); }
    t.build()
}
pub fn partial(b: &Block, i: usize) -> PartialTransactionProof {
    let t = b.transactions[i].clone();
    PartialTransactionProof { tx_encoded_len: t.size_no_witness() as u32, merkle_proof: b.merkle_proof(&[t.tx_id()]).unwrap(), transaction: t }
}
pub fn proof(b: &Block, i: usize) -> FullTransactionProof { FullTransactionProof { user_tx_proof: partial(b, i), coinbase_proof: partial(b, 0) } }
/// mine a block with the transaction plus the confirmations it needs and return its proof
pub fn confirm(t: Transaction) -> FullTransactionProof {
    let b = mine(&[t]);
    let c = BTCRelay::bitcoin_confirmations();
    if c > 1 { mine_n(c - 1) }
    proof(&b, 1)
}
