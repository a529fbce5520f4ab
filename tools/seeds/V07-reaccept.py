exec(open("/verif/tools/seeds/V06-period.py").read())
id="V07-reaccept"; property="V07"; kind="bridge"
needs="a cancelled replace request that is paid late, while the old vault has another redeem and the new vault another issue request open"
breaks="a late replacement takes the tokens reserved for the other requests instead of reserving its own, so those requests can never complete"
edits=[("crates/replace/src/lib.rs","""                // we need to re-accept first, this will check that the vault is over the secure threshold
                Self::accept_replace_tokens(&old_vault_id, &new_vault_id, &amount)?;
""","")]
demo={"demo/src/main.rs":BR+'''
fn main() {
    start(|| {
        issue(20, 10, 200_000);
        let p = Pair { collateral: COL, wrapped: WRAPPED };
        Replace::request_replace(signed(10), p.clone(), 50_000).unwrap();
        Replace::accept_replace(signed(11), p.clone(), vid(10), 50_000, 200_000, addr(9)).unwrap();
        let id = Replace::get_replace_requests_for_old_vault(10)[0];
        let r = replace_request(&id);
        advance(30, 30);
        Replace::cancel_replace(signed(11), id).unwrap();
        Redeem::request_redeem(signed(20), 80_000, addr(8), vid(10)).unwrap();
        let redeem = Redeem::get_redeem_requests_for_account(20)[0];
        Issue::request_issue(signed(30), 80_000, vid(11), NATIVE).unwrap();
        let was = VaultRegistry::get_to_be_issued_tokens_from_vault(vid(11)).unwrap().amount();
        let proof = pay(addr(9), r.amount, Some(id));
        tx(|| Replace::execute_replace(signed(78), id, proof)).unwrap();
        assert_eq!(VaultRegistry::get_to_be_issued_tokens_from_vault(vid(11)).unwrap().amount(), was, "the other request keeps its reservation");
        let d = Redeem::get_open_redeem_request_from_id(&redeem).unwrap();
        let proof = pay(addr(8), d.amount_btc, Some(redeem));
        assert!(tx(|| Redeem::execute_redeem(signed(78), redeem, proof)).is_ok(), "the other redeem still completes");
    });
}
fn replace_request(id: &H256) -> primitives::replace::ReplaceRequest<AccountId, u64, u128, CurrencyId> { Replace::get_open_replace_request(id).unwrap() }
'''}
