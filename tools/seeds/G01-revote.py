id="G01-revote"; property="G01"; kind="gov"
needs="a voter who votes once within the voting power held and then changes the vote to a larger weight"
breaks="the weight of a changed vote is not limited by the voting power of the voter"
edits=[("crates/democracy/src/lib.rs","""        ensure!(
            vote.balance <= T::Currency::free_balance(who),
            Error::<T>::InsufficientFunds
        );
        VotingOf""","""        VotingOf"""),("crates/democracy/src/lib.rs","""                Err(i) => {
                    votes
                        .try_insert""","""                Err(i) => {
                    ensure!(
                        vote.balance <= T::Currency::free_balance(who),
                        Error::<T>::InsufficientFunds
                    );
                    votes
                        .try_insert""")]
GOV='''mod soc;
use soc::*;
#[allow(unused_imports)]
use frame_support::traits::Hooks;
'''
demo={"demo/src/main.rs":GOV+'''
use democracy::{ReferendumInfo, Vote};
use frame_support::traits::StorePreimage;
fn main() {
    mcstore::isolated(genesis(&[(1, 1_000_000), (2, 1_000_000)]), || {
        System::set_block_number(1);
        for a in 1..=2u128 { Escrow::create_lock(RuntimeOrigin::signed(a), 100_000, MAX_PERIOD).unwrap(); }
        let power = |a: u128| Escrow::balance_at(&a, None);
        assert!(power(1) > 100);
        let call = RuntimeCall::System(frame_system::Call::remark { remark: vec![1] });
        Democracy::propose(RuntimeOrigin::signed(1), <Preimage as StorePreimage>::bound(call).unwrap(), 5).unwrap();
        Democracy::table_proposal(RuntimeOrigin::root(), 0, 2).unwrap();
        let vote = |a: u128, balance: u128| tx(|| Democracy::vote(RuntimeOrigin::signed(a), 0, Vote { aye: true, balance }));
        assert!(vote(2, power(2) * 1000).is_err(), "nobody votes with more than they have");
        assert!(vote(2, 10).is_ok());
        let r = vote(2, power(2) * 1000);
        assert!(r.is_err(), "nor when changing a vote");
        match Democracy::referendum_info(0) { Some(ReferendumInfo::Ongoing(s)) => assert!(s.tally.ayes <= power(1) + power(2)), _ => panic!() }
    });
}
'''}
