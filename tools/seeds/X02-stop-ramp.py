exec(open("/verif/tools/seeds/X01-klast.py").read())
id="X02-stop-ramp"; property="X02"; kind="dex"
needs="a falling ramp of the amplification stopped half way"
breaks="stopping a ramp downwards jumps straight to its target instead of holding the value reached"
edits=[("crates/dex-stable/src/lib.rs","""                pool.future_a = current_a;
                pool.initial_a_time = now;""","""                pool.future_a = pool.future_a.min(current_a);
                pool.initial_a_time = now;""")]
demo={"demo/src/main.rs":DEX+'''
fn main() {
    let n = 1_000_000_000_000_000_000u128;
    mcstore::isolated(genesis(&[(1, A, n), (1, B, n)]), || {
        System::set_block_number(1);
        let t0 = 1_700_000_000u64;
        Timestamp::set_timestamp(t0 * 1000);
        DexStable::create_base_pool(root(), vec![A, B], vec![10, 12], 400, 0, 0, 3, b"base".to_vec()).unwrap();
        DexStable::add_liquidity(signed(1), 0, vec![1_000_000_000_000, 100_000_000_000_000], 0, 1, u64::MAX).unwrap();
        let day = 86_400u64;
        Timestamp::set_timestamp((t0 + 2 * day) * 1000);
        DexStable::ramp_a(root(), 0, 100, (t0 + 22 * day) as _).unwrap();
        Timestamp::set_timestamp((t0 + 12 * day) * 1000);
        let half = DexStable::get_a_precise_by_id(0);
        DexStable::stop_ramp_a(root(), 0).unwrap();
        assert_eq!(DexStable::get_a_precise_by_id(0), half, "the ramp stops where it is");
        Timestamp::set_timestamp((t0 + 30 * day) * 1000);
        assert_eq!(DexStable::get_a_precise_by_id(0), half, "and stays there");
    });
}
'''}
