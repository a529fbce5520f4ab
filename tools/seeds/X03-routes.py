exec(open("/verif/tools/seeds/X01-klast.py").read())
id="X03-routes"; property="X03"; kind="dex"
needs="a route of three hops whose second and third do not connect, and a caller who holds the third hop's input currency"
breaks="routes are compared in disjoint pairs, so the third hop may spend a currency the second did not deliver"
edits=[("crates/dex-swap-router/src/lib.rs","""        for [route_1, route_2] in routes.array_windows::<2>() {
            let output_1""","""        for pair in routes.chunks_exact(2) {
            let (route_1, route_2) = (&pair[0], &pair[1]);
            let output_1""")]
demo={"demo/src/main.rs":DEX+'''
use dex_swap_router::Route;
fn main() {
    let n = 1_000_000_000_000u128;
    let c = [Token(DOT), Token(KSM), Token(INTR), Token(KINT)];
    let money: Vec<_> = (1..=2u128).flat_map(|a| c.map(|x| (a, x, n))).collect();
    mcstore::isolated(genesis(&money), || {
        System::set_block_number(1);
        for (i, j) in [(0, 1), (1, 2), (2, 3), (1, 3)] {
            Gen::create_pair(root(), c[i], c[j], 30).unwrap();
            Gen::add_liquidity(signed(1), c[i], c[j], 1_000_000_000, 1_000_000_000, 0, 0, 9).unwrap();
        }
        let hop = |i: usize, j: usize| Route::General(vec![c[i], c[j]]);
        assert!(rt_tx(|| Router::swap_exact_tokens_for_tokens(signed(2), 1000, 0, vec![hop(0, 1), hop(1, 2), hop(2, 3)], 2, 9)).is_ok());
        let before = free(c[1], 2);
        let r = rt_tx(|| Router::swap_exact_tokens_for_tokens(signed(2), 1000, 0, vec![hop(0, 1), hop(1, 2), hop(1, 3)], 2, 9));
        assert!(r.is_err() && free(c[1], 2) == before, "a route that does not connect is refused");
    });
}
fn rt_tx<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> { mcstore::begin(); let r = f(); if r.is_ok() { mcstore::commit() } else { mcstore::rollback() } r }
'''}
