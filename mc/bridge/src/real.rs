//! The real pallets: running an operation on them and reading off what can be observed.
use crate::spec::*;
use codec::{Decode, Encode};
use frame_support::{Blake2_128Concat, StorageHasher};
use primitives::issue::{IssueRequest, IssueRequestStatus};
use primitives::redeem::{RedeemRequest, RedeemRequestStatus};
use primitives::replace::{ReplaceRequest, ReplaceRequestStatus};
use rt::{btc, *};
use vault_registry::VaultStatus;

rewards_api!(Cap, CapacityRewards, (), CurrencyId);
rewards_api!(Vr, VaultRewards, CurrencyId, Vid);
rewards_api!(St, VaultStaking, (Option<u64>, Vid), AccountId);

pub type IssueReq = IssueRequest<AccountId, u64, u128, CurrencyId>;
pub type RedeemReq = RedeemRequest<AccountId, u64, u128, CurrencyId>;
pub type ReplaceReq = ReplaceRequest<AccountId, u64, u128, CurrencyId>;
pub type Ids = [Vec<H256>; 3];

pub const CURS: [CurrencyId; 4] = [COL, COL2, NATIVE, WRAPPED];
pub fn acc(i: usize) -> AccountId {
    match i { 0 => 10, 1 => 11, 2 => 20, 3 => 30, 4 => Fee::fee_pool_account_id(), 5 => Issue::treasury_account_id(), _ => VaultRegistry::liquidation_vault_account_id() }
}
pub fn acc_ix(a: AccountId) -> usize { (0..ACC).find(|i| acc(*i) == a).expect("account") }
pub fn cur_ix(c: CurrencyId) -> usize { CURS.iter().position(|x| *x == c).expect("currency") }
pub fn pair(c: usize) -> Pair { Pair { collateral: CURS[c], wrapped: WRAPPED } }
pub fn vault_id(k: &Cfg, v: usize) -> Vid { let (o, c) = k.vaults[v]; Vid::new(acc(o), CURS[c], WRAPPED) }
fn vault_ix(k: &Cfg, id: &Vid) -> usize { (0..k.vaults.len()).find(|v| vault_id(k, *v) == *id).expect("vault") }

fn prefix(pallet: &str, item: &str) -> Vec<u8> { let mut k = sp_core::twox_128(pallet.as_bytes()).to_vec(); k.extend_from_slice(&sp_core::twox_128(item.as_bytes())); k }
fn map_key<K: Encode>(pallet: &str, item: &str, key: &K) -> Vec<u8> { let mut k = prefix(pallet, item); k.extend_from_slice(&Blake2_128Concat::hash(&key.encode())); k }
pub fn raw<K: Encode, V: Decode>(pallet: &str, item: &str, key: &K) -> Option<V> { mcstore::get(&map_key(pallet, item, key)).map(|v| V::decode(&mut &v[..]).expect("decode")) }
fn value<V: Decode>(pallet: &str, item: &str) -> Option<V> { mcstore::get(&prefix(pallet, item)).map(|v| V::decode(&mut &v[..]).expect("decode")) }
pub const REQ: [(&str, &str); 3] = [("Issue", "IssueRequests"), ("Redeem", "RedeemRequests"), ("Replace", "ReplaceRequests")];
pub fn ids_now(i: usize) -> Vec<H256> {
    mcstore::keys_with_prefix(&prefix(REQ[i].0, REQ[i].1)).iter().map(|k| H256::from_slice(&k[k.len() - 32..])).collect()
}
/// requests created since
pub fn new_ids(ids: &mut Ids) { for i in 0..3 { for x in ids_now(i) { if !ids[i].contains(&x) { ids[i].push(x) } } } }
pub fn issue_req(id: &H256) -> IssueReq { raw("Issue", "IssueRequests", id).expect("issue request") }
pub fn redeem_req(id: &H256) -> RedeemReq { raw("Redeem", "RedeemRequests", id).expect("redeem request") }
pub fn replace_req(id: &H256) -> ReplaceReq { raw("Replace", "ReplaceRequests", id).expect("replace request") }

pub fn observe(k: &Cfg, ids: &Ids) -> Obs {
    let mut bal = [[(0, 0); CUR]; ACC];
    for a in 0..ACC { for c in 0..CUR { let d = Tokens::accounts(acc(a), CURS[c]); bal[a][c] = (d.free, d.reserved); } }
    let mut supply = [0; CUR];
    for c in 0..CUR { supply[c] = <Tokens as orml_traits::MultiCurrency<AccountId>>::total_issuance(CURS[c]); }
    let mut v = vec![];
    for i in 0..k.vaults.len() {
        let id = vault_id(k, i);
        let mut w = Vault { opted: raw("Nomination", "Vaults", &id).unwrap_or(false), limit: raw("Nomination", "NominationLimit", &id).unwrap_or(0), ..Default::default() };
        if let Ok(d) = VaultRegistry::get_vault_from_id(&id) {
            w.exists = true;
            w.status = match d.status { VaultStatus::Active(true) => 0, VaultStatus::Active(false) => 1, VaultStatus::Liquidated => 2 };
            w.issued = d.issued_tokens;
            w.tbi = d.to_be_issued_tokens;
            w.tbr = d.to_be_redeemed_tokens;
            w.tbrep = d.to_be_replaced_tokens;
            w.rc = d.replace_collateral;
            w.arc = d.active_replace_collateral;
            w.liqc = d.liquidated_collateral;
            w.banned = d.banned_until;
            w.thr = d.secure_collateral_threshold.map(|x| x.into_inner());
        }
        w.nonce = <VaultStaking as staking::StakingApi<Vid, u64, u128>>::nonce(&id);
        for a in 0..ST { w.stake[a] = St::get_stake(&(None, id.clone()), &acc(a)).unwrap(); }
        w.total = St::get_total_stake(&(None, id.clone())).unwrap();
        for n in 0..w.nonce { for a in 0..ST { let s = St::get_stake(&(Some(n), id.clone()), &acc(a)).unwrap(); if s != 0 { w.old.insert((n, a), s); } } }
        w.rstake = Vr::get_stake(&CURS[k.vaults[i].1], &id).unwrap();
        v.push(w);
    }
    let mut liq: [Liq; 2] = Default::default();
    let (mut tuvc, mut ceil, mut min, mut cap) = ([0; 2], [0; 2], [0; 2], [0; 2]);
    for c in 0..2 {
        if let Some(p) = k.vaults.iter().any(|x| x.1 == c).then(|| pair(c)) {
            let l = VaultRegistry::get_liquidation_vault(&p);
            liq[c] = Liq { issued: l.issued_tokens, tbi: l.to_be_issued_tokens, tbr: l.to_be_redeemed_tokens, col: l.collateral };
            tuvc[c] = VaultRegistry::get_total_user_vault_collateral(&p).unwrap().amount();
            ceil[c] = raw("VaultRegistry", "SystemCollateralCeiling", &p).unwrap_or(0);
            min[c] = raw("VaultRegistry", "MinimumCollateralVault", &CURS[c]).unwrap_or(0);
            cap[c] = Cap::get_stake(&(), &CURS[c]).unwrap();
        }
    }
    let mut price = [0; 3];
    for c in 0..3 { price[c] = Oracle::get_price(oracle::OracleKey::ExchangeRate(CURS[c])).map(|x| x.into_inner()).unwrap_or(0); }
    let is = ids[0].iter().map(|h| { let r = issue_req(h); IssueR {
        v: vault_ix(k, &r.vault), who: acc_ix(r.requester), amount: r.amount, fee: r.fee, grief: r.griefing_collateral, gcur: cur_ix(r.griefing_currency), open: r.opentime, height: r.btc_height, period: r.period,
        status: match r.status { IssueRequestStatus::Pending => PENDING, IssueRequestStatus::Completed => COMPLETED, IssueRequestStatus::Cancelled => CANCELLED } } }).collect();
    let rd = ids[1].iter().map(|h| { let r = redeem_req(h); RedeemR {
        v: vault_ix(k, &r.vault), who: acc_ix(r.redeemer), fee: r.fee, inc: r.transfer_fee_btc, amount: r.amount_btc, premium: r.premium, open: r.opentime, height: r.btc_height, period: r.period,
        status: match r.status { RedeemRequestStatus::Pending => PENDING, RedeemRequestStatus::Completed => COMPLETED, RedeemRequestStatus::Retried => CANCELLED, RedeemRequestStatus::Reimbursed(true) => REIMBURSED_MINTED, RedeemRequestStatus::Reimbursed(false) => REIMBURSED } } }).collect();
    let rp = ids[2].iter().map(|h| { let r = replace_req(h); ReplaceR {
        old: vault_ix(k, &r.old_vault), new: vault_ix(k, &r.new_vault), amount: r.amount, grief: r.griefing_collateral, col: r.collateral, open: r.accept_time, height: r.btc_height, period: r.period,
        status: match r.status { ReplaceRequestStatus::Pending => PENDING, ReplaceRequestStatus::Completed => COMPLETED, ReplaceRequestStatus::Cancelled => CANCELLED } } }).collect();
    Obs {
        bal, supply, v, liq, tuvc, ceil, min, cap, cap_total: Cap::get_total_stake(&()).unwrap(), price, is, rd, rp,
        now: Security::active_block_number(), height: btc::height(), nomination: Nomination::is_nomination_enabled(),
        periods: [value("Issue", "IssuePeriod").unwrap_or(0), value("Redeem", "RedeemPeriod").unwrap_or(0), value("Replace", "ReplacePeriod").unwrap_or(0)],
    }
}

fn pay_tx(out: Vec<bitcoin::types::TransactionOutput>) -> bitcoin::types::FullTransactionProof { btc::confirm(btc::payment(btc::height(), out)) }
fn op_return(id: &H256) -> bitcoin::types::TransactionOutput { bitcoin::types::TransactionOutput::op_return(0, id.as_bytes()) }
fn request_payment(address: btc::BtcAddress, amount: u128, id: &H256, p: Pay) -> bitcoin::types::FullTransactionProof {
    let a = match p { Pay::Less => amount - 1, Pay::More => amount + 1, _ => amount } as i64;
    let to = if p == Pay::WrongAddress { btc::addr(0x77) } else { address };
    let wrong = H256([0x55; 32]);
    pay_tx(vec![bitcoin::types::TransactionOutput::payment(a, &to), op_return(if p == Pay::WrongId { &wrong } else { id })])
}
fn flat<E: std::fmt::Debug, T>(r: Result<T, E>) -> Result<(), String> { r.map(|_| ()).map_err(|e| err_name(&e)) }
fn fxi(x: u128) -> FixedU128 { FixedU128::from_inner(x) }

/// Everything an operation does before its extrinsic (payments on Bitcoin).
pub enum Ready { Proof(bitcoin::types::FullTransactionProof), No }
pub fn prepare(ids: &Ids, op: &Op) -> Ready {
    match *op {
        Op::ExecIssue(i, _, p, right) => { let r = issue_req(&ids[0][i]); Ready::Proof(pay_tx(vec![bitcoin::types::TransactionOutput::payment(p as i64, &if right { r.btc_address } else { btc::addr(0x77) })])) }
        Op::ExecRedeem(i, p) => { let r = redeem_req(&ids[1][i]); Ready::Proof(request_payment(r.btc_address, r.amount_btc, &ids[1][i], p)) }
        Op::ExecReplace(i, p) => { let r = replace_req(&ids[2][i]); Ready::Proof(request_payment(r.btc_address, r.amount, &ids[2][i], p)) }
        _ => Ready::No,
    }
}
pub fn run(k: &Cfg, ids: &Ids, op: &Op, ready: Ready) -> Result<(), String> {
    let proof = || match &ready { Ready::Proof(p) => p.clone(), Ready::No => unreachable!() };
    let vo = |v: usize| signed(acc(k.vaults[v].0));
    let vp = |v: usize| pair(k.vaults[v].1);
    tx(|| match *op {
        Op::Register(v, x) => flat(VaultRegistry::register_vault(vo(v), vp(v), x)),
        Op::Deposit(v, x) => flat(Nomination::deposit_collateral(vo(v), vault_id(k, v), x)),
        Op::Withdraw(v, x, i) => flat(Nomination::withdraw_collateral(vo(v), vault_id(k, v), x, i)),
        Op::Nominate(v, a, x) => flat(Nomination::deposit_collateral(signed(acc(a)), vault_id(k, v), x)),
        Op::NomWithdraw(v, a, x, i) => flat(Nomination::withdraw_collateral(signed(acc(a)), vault_id(k, v), x, i)),
        Op::Accept(v, b) => flat(VaultRegistry::accept_new_issues(vo(v), vp(v), b)),
        Op::Threshold(v, t) => flat(VaultRegistry::set_custom_secure_threshold(vo(v), vp(v), t.map(fxi))),
        Op::Recover(v) => flat(VaultRegistry::recover_vault_id(vo(v), vp(v))),
        Op::Report(v) => flat(VaultRegistry::report_undercollateralized_vault(signed(77), vault_id(k, v))),
        Op::OptIn(v) => flat(Nomination::opt_in_to_nomination(vo(v), vp(v))),
        Op::OptOut(v) => flat(Nomination::opt_out_of_nomination(vo(v), vp(v))),
        Op::Limit(v, x) => flat(Nomination::set_nomination_limit(vo(v), vp(v), x)),
        Op::Nomination(b) => flat(Nomination::set_nomination_enabled(root(), b)),
        Op::Ceiling(c, x) => flat(VaultRegistry::set_system_collateral_ceiling(root(), pair(c), x)),
        Op::Min(c, x) => flat(VaultRegistry::set_minimum_collateral(root(), CURS[c], x)),
        Op::Price(c, p) => { set_prices(&[(CURS[c], fxi(p))]); Ok(()) }
        Op::Period(i, x) => match i { 0 => flat(Issue::set_issue_period(root(), x)), 1 => flat(Redeem::set_redeem_period(root(), x)), _ => flat(Replace::set_replace_period(root(), x)) },
        Op::Issue(v, a, x, g) => flat(Issue::request_issue(signed(acc(a)), x, vault_id(k, v), CURS[g])),
        Op::ExecIssue(i, by, _, _) => flat(Issue::execute_issue(signed(acc(by)), ids[0][i], proof())),
        Op::CancelIssue(i, by) => flat(Issue::cancel_issue(signed(acc(by)), ids[0][i])),
        Op::Redeem(v, a, x) => flat(Redeem::request_redeem(signed(acc(a)), x, btc::addr(0x40 + a as u8), vault_id(k, v))),
        Op::ExecRedeem(i, _) => flat(Redeem::execute_redeem(signed(78), ids[1][i], proof())),
        Op::CancelRedeem(i, by, re) => flat(Redeem::cancel_redeem(signed(acc(by)), ids[1][i], re)),
        Op::Mint(i, v) => flat(Redeem::mint_tokens_for_reimbursed_redeem(vo(v), vp(v), ids[1][i])),
        Op::SelfRedeem(v, x) => flat(Redeem::self_redeem(vo(v), vp(v), x)),
        Op::LiqRedeem(c, a, x) => flat(Redeem::liquidation_redeem(signed(acc(a)), pair(c), x)),
        Op::ReqReplace(v, x) => flat(Replace::request_replace(vo(v), vp(v), x)),
        Op::WithdrawReplace(v, x) => flat(Replace::withdraw_replace(vo(v), vp(v), x)),
        Op::AcceptReplace(n, o, x, c) => flat(Replace::accept_replace(vo(n), vp(n), vault_id(k, o), x, c, btc::addr(0x60 + n as u8))),
        Op::ExecReplace(i, _) => flat(Replace::execute_replace(signed(78), ids[2][i], proof())),
        Op::CancelReplace(i) => flat(Replace::cancel_replace(vo(replace_new(k, &ids[2][i])), ids[2][i])),
        Op::Time(n, b) => { advance(n, b); Ok(()) }
    })
}
fn replace_new(k: &Cfg, id: &H256) -> usize { vault_ix(k, &replace_req(id).new_vault) }
