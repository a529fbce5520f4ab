exec(open("/verif/tools/seeds/G01-revote.py").read())
id="G03-kick"; property="G03"; kind="gov"
needs="several candidates idle at the end of the same session"
breaks="whether enough candidates remain is decided once before the removals, so all idle candidates are removed, even the last"
edits=[("crates/collator-selection/src/lib.rs","""
                    // don't kick if not enough candidates
                    let surplus_candidates = Self::candidates().len() as u32 > T::MinCandidates::get();
""",""),("crates/collator-selection/src/lib.rs","""            let candidacy_bond = Self::candidacy_bond();
            candidates
""","""            let candidacy_bond = Self::candidacy_bond();
            // don't kick if not enough candidates
            let surplus_candidates = Self::candidates().len() as u32 > T::MinCandidates::get();
            candidates
""")]
demo={"demo/src/main.rs":GOV+'''
fn main() {
    let who = [1u128, 2, 3, 6];
    let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> { balances: who.iter().map(|a| (*a, 1000)).chain([(CollatorSelection::account_id(), 5)]).collect() }.assimilate_storage(&mut s).unwrap();
    collator_selection::GenesisConfig::<Test> { invulnerables: vec![6], candidacy_bond: 20, desired_candidates: 3 }.assimilate_storage(&mut s).unwrap();
    pallet_session::GenesisConfig::<Test> { keys: who.iter().map(|a| (*a, *a, Keys { aura: sp_runtime::testing::UintAuthorityId(*a as u64) })).collect() }.assimilate_storage(&mut s).unwrap();
    mcstore::isolated(sp_io::TestExternalities::from(s).map, || {
        System::set_block_number(1);
        for a in 1..=3u128 {
            Escrow::create_lock(RuntimeOrigin::signed(a), 300, 50).unwrap();
            CollatorSelection::register_as_candidate(RuntimeOrigin::signed(a)).unwrap();
        }
        for h in 2..=12 {
            System::set_block_number(h);
            CollatorSelection::on_initialize(h);
            Session::on_initialize(h);
        }
        let left = CollatorSelection::candidates().len() as u32;
        assert_eq!(left, MIN_CANDIDATES, "idle candidates are removed down to the minimum");
    });
}
'''}
