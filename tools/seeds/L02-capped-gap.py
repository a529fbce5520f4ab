exec(open("/verif/tools/seeds/L03-wrong-market.py").read())
id="L02-capped-gap"; property="L02"; kind="loan"
needs="a market nobody touches for more than 180 days while it has debts"
breaks="interest stops after 180 days without an operation, while the time of the last accrual is moved to the present"
edits=[("crates/loans/src/interest.rs","""        let compounded_rate = base_rate.saturating_pow(usize::saturated_from(delta_time));""",
"""        // bound the number of compounding steps of a single accrual
        let steps = delta_time.min(SECONDS_PER_YEAR / 2);
        let compounded_rate = base_rate.saturating_pow(usize::saturated_from(steps));""")]
demo={"demo/src/main.rs":LOAN+'''
fn owed(stops: &[u64]) -> u128 {
    let mut d = 0;
    start(|| {
        Loans::mint(signed(2), B, 1_000_000_000).unwrap();
        Loans::mint(signed(1), A, 4_000_000_000).unwrap();
        Loans::deposit_all_collateral(signed(1), A).unwrap();
        Loans::borrow(signed(1), B, 500_000_000).unwrap();
        for t in stops { at(*t); Loans::mint(signed(3), B, 1000).unwrap(); }
        Loans::mint(signed(3), B, 1000).unwrap();
        d = Loans::current_borrow_balance(&1, B).unwrap_or_else(|_| panic!()).amount();
    });
    d
}
fn main() {
    let (a, b) = (owed(&[365]), owed(&[100, 200, 300, 365]));
    assert!(a.abs_diff(b) * 20 < a, "a year's interest does not depend on who touched the market: {} {}", a, b);
}
'''}
