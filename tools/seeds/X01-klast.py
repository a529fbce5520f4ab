id="X01-klast"; property="X01"; kind="dex"
needs="the protocol fee switched on, a withdrawal of liquidity with no trades since the last fee, then trades"
breaks="the protocol's reference product is not updated by a withdrawal that minted no fee, so the fee of the trades that follow is lost"
edits=[("crates/dex-general/src/swap/mod.rs","""                if let Some(_fee_to) = Self::fee_meta().0 {
                    // update reserve_0 and reserve_1
                    let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                    let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);

                    let last_k_value = U256::from(reserve_0)
                        .checked_mul(U256::from(reserve_1))
                        .ok_or(Error::<T>::Overflow)?;
                    Self::mutate_k_last(asset_0, asset_1, last_k_value);
                }

                Self::deposit_event(Event::LiquidityRemoved""","""                if mint_fee > 0 {
                    // update reserve_0 and reserve_1
                    let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                    let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);

                    let last_k_value = U256::from(reserve_0)
                        .checked_mul(U256::from(reserve_1))
                        .ok_or(Error::<T>::Overflow)?;
                    Self::mutate_k_last(asset_0, asset_1, last_k_value);
                }

                Self::deposit_event(Event::LiquidityRemoved""")]
DEX='''mod soc;
use orml_traits::MultiCurrency;
use soc::*;
type Gen = DexGeneral;
const A: CurrencyId = Token(DOT);
const B: CurrencyId = Token(KSM);
fn signed(a: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(a) }
fn root() -> RuntimeOrigin { RuntimeOrigin::root() }
#[allow(dead_code)]
fn free(c: CurrencyId, a: AccountId) -> u128 { <Tokens as MultiCurrency<AccountId>>::free_balance(c, &a) }
'''
demo={"demo/src/main.rs":DEX+'''
fn main() {
    let n = 1_000_000_000_000u128;
    mcstore::isolated(genesis(&[(1, A, n), (1, B, n)]), || {
        System::set_block_number(1);
        Gen::create_pair(root(), A, B, 30).unwrap();
        Gen::set_fee_receiver(root(), Some(7)).unwrap();
        Gen::set_fee_point(root(), 5).unwrap();
        Gen::add_liquidity(signed(1), A, B, 1_000_000_000, 1_000_000_000, 0, 0, 9).unwrap();
        let lp = Gen::lp_pairs(Gen::sort_asset_id(A, B)).unwrap();
        Gen::remove_liquidity(signed(1), A, B, free(lp, 1) / 2, 0, 0, 1, 9).unwrap();
        for _ in 0..20 {
            Gen::swap_exact_assets_for_assets(signed(1), 100_000_000, 0, vec![A, B], 1, 9).unwrap();
            Gen::swap_exact_assets_for_assets(signed(1), 80_000_000, 0, vec![B, A], 1, 9).unwrap();
        }
        Gen::add_liquidity(signed(1), A, B, 1_000_000, 1_000_000, 0, 0, 9).unwrap();
        assert!(free(lp, 7) > 0, "the protocol has its share of the fees");
    });
}
'''}
