exec(open("/verif/tools/seeds/L03-wrong-market.py").read())
id="L04-receiver"; property="L04"; kind="loan"
needs="lend tokens transferred to an account that has held some before, while rewards accumulate"
breaks="the receiver's rewards are not settled before the transfer, so the transferred tokens earn again what they already earned for the sender"
edits=[("crates/loans/src/lib.rs","""            Pallet::<T>::distribute_supplier_reward(underlying_id, from)?;
            Pallet::<T>::distribute_supplier_reward(underlying_id, to)?;
""","""            Pallet::<T>::distribute_supplier_reward(underlying_id, from)?;
            if Pallet::<T>::account_deposits(currency_id, to).is_zero() {
                Pallet::<T>::distribute_supplier_reward(underlying_id, to)?;
            }
""")]
demo={"demo/src/main.rs":LOAN+'''
fn main() {
    start(|| {
        Loans::add_reward(signed(4), 1_000_000).unwrap();
        Loans::mint(signed(1), A, 1_000_000).unwrap();
        Loans::mint(signed(2), A, 1_000).unwrap();
        Loans::deposit_all_collateral(signed(2), A).unwrap();
        Loans::update_market_reward_speed(root(), A, Some(100), None).unwrap();
        System::set_block_number(101);
        let all = free(LendToken(1), 1);
        <Tokens as MultiCurrency<AccountId>>::transfer(LendToken(1), &1, &2, all).unwrap();
        let before: Vec<u128> = (1..=2).map(|a| free(NATIVE, a)).collect();
        for a in 1..=2u128 { Loans::claim_reward(signed(a)).unwrap(); }
        let got: Vec<u128> = (1..=2u128).map(|a| free(NATIVE, a) - before[a as usize - 1]).collect();
        assert!(got[0] + got[1] <= 10_000, "no more than the 100 blocks are paid: {:?}", got);
    });
}
'''}
