id="V06-period"; property="V06"; kind="bridge"
needs="the redeem period shortened by governance while a request is open"
breaks="the period promised when the request was made no longer counts, so the vault is punished before its time is over"
edits=[("crates/redeem/src/lib.rs","""                redeem.btc_height,
                Self::redeem_period().max(redeem.period)
            )?,
            Error::<T>::TimeNotExpired
""","""                redeem.btc_height,
                Self::redeem_period()
            )?,
            Error::<T>::TimeNotExpired
""")]
BR='''use rt::btc::*;
use rt::*;
#[allow(unused)]
fn pay(to: BtcAddress, amount: u128, id: Option<H256>) -> FullTransactionProof {
    let mut o = vec![TransactionOutput::payment(amount as i64, &to)];
    if let Some(i) = id { o.push(TransactionOutput::op_return(0, i.as_bytes())) }
    confirm(payment(height(), o))
}
#[allow(unused)]
fn issue(user: AccountId, vault: AccountId, amount: u128) {
    let before: Vec<_> = Issue::get_issue_requests_for_account(user);
    Issue::request_issue(signed(user), amount, vid(vault), NATIVE).unwrap();
    let id = *Issue::get_issue_requests_for_account(user).iter().find(|i| !before.contains(i)).unwrap();
    let r = Issue::get_issue_request_from_id(&id).unwrap();
    Issue::execute_issue(signed(user), id, pay(r.btc_address, r.amount + r.fee, None)).unwrap();
}
fn start(f: impl FnOnce()) {
    let m = 1_000_000_000u128;
    let balances = [10u128, 11, 20, 30].iter().flat_map(|a| [(*a, COL, m), (*a, NATIVE, m)]).collect();
    mcstore::isolated(Genesis { balances, ceiling: m * 10, period: 20, ..Default::default() }.build(), || {
        for v in [10u128, 11] { VaultRegistry::register_vault(signed(v), Pair { collateral: COL, wrapped: WRAPPED }, 1_000_000).unwrap(); }
        f()
    });
}
'''
demo={"demo/src/main.rs":BR+'''
fn main() {
    start(|| {
        issue(20, 10, 100_000);
        Redeem::request_redeem(signed(20), 50_000, addr(9), vid(10)).unwrap();
        let id = Redeem::get_redeem_requests_for_account(20)[0];
        Redeem::set_redeem_period(root(), 4).unwrap();
        advance(10, 5);
        assert!(tx(|| Redeem::cancel_redeem(signed(20), id, true)).is_err(), "the vault was promised 20 blocks");
        advance(20, 20);
        assert!(tx(|| Redeem::cancel_redeem(signed(20), id, true)).is_ok());
    });
}
'''}
