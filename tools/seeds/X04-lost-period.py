id="X04-lost-period"; property="X04"; kind="soc"
needs="a reward period that ends while nobody has deposited"
breaks="the schedule is advanced although the reward could not be distributed, so the reward of that period is never paid"
edits=[("crates/farming/src/lib.rs","""                        if let Ok(_) = Self::try_distribute_reward(pool_currency_id, reward_currency_id, amount) {
                            // only update the schedule if we could distribute the reward
                            RewardSchedules::<T>::insert(pool_currency_id, reward_currency_id, reward_schedule);
""","""                        RewardSchedules::<T>::insert(pool_currency_id, reward_currency_id, reward_schedule);
                        if let Ok(_) = Self::try_distribute_reward(pool_currency_id, reward_currency_id, amount) {
""")]
demo={"demo/src/main.rs":'''mod soc;
use frame_support::traits::{Get, Hooks};
use orml_traits::MultiCurrency;
use primitives::LpToken;
use soc::*;
fn main() {
    let pool = CurrencyId::LpToken(LpToken::Token(DOT), LpToken::Token(IBTC));
    let mut sorted = pool;
    sorted.sort();
    mcstore::isolated(genesis(&[], &[(TreasuryAccountId::get(), Token(INTR), 100), (1, sorted, 10)]), || {
        Farming::update_reward_schedule(root(), pool, Token(INTR), 2, 100).unwrap();
        let mut h = 0;
        let mut period = || for _ in 0..REWARD_PERIOD { h += 1; System::set_block_number(h); Farming::on_initialize(h); };
        period();
        Farming::deposit(signed(1), pool, 5).unwrap();
        period();
        period();
        period();
        Farming::claim(signed(1), pool, Token(INTR)).unwrap();
        assert_eq!(<Tokens as MultiCurrency<AccountId>>::free_balance(Token(INTR), &1), 100, "all that was scheduled is paid");
    });
}
'''}
