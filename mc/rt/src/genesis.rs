use crate::*;
use mcstore::Map;
use oracle::OracleKey;

#[derive(Clone)]
pub struct Genesis {
    pub balances: Vec<(AccountId, CurrencyId, Balance)>,
    pub minimum_collateral: Balance,
    pub ceiling: Balance,
    pub punishment_delay: u64,
    pub secure: FixedU128,
    pub premium: FixedU128,
    pub liquidation: FixedU128,
    pub issue_fee: FixedU128,
    pub issue_griefing: FixedU128,
    pub redeem_fee: FixedU128,
    pub premium_fee: FixedU128,
    pub punishment_fee: FixedU128,
    pub replace_griefing: FixedU128,
    pub period: u64,
    pub dust: Balance,
    pub tx_size: u32,
    pub bitcoin_confirmations: u32,
    pub parachain_confirmations: u64,
    pub difficulty_check: bool,
    pub vaults: usize,
    pub col2: bool,
}
pub fn fx(n: u128, d: u128) -> FixedU128 { FixedU128::checked_from_rational(n, d).unwrap() }
impl Default for Genesis {
    fn default() -> Self {
        Genesis {
            balances: vec![], minimum_collateral: 100, ceiling: 100_000_000, punishment_delay: 5, secure: fx(2, 1), premium: fx(16, 10), liquidation: fx(125, 100),
            issue_fee: fx(1, 100), issue_griefing: fx(2, 100), redeem_fee: fx(2, 100), premium_fee: fx(5, 100), punishment_fee: fx(10, 100), replace_griefing: fx(10, 100),
            period: 10, dust: 50, tx_size: 3, bitcoin_confirmations: 1, parachain_confirmations: 0, difficulty_check: false, vaults: 2, col2: false,
        }
    }
}
impl Genesis {
    pub fn pairs(&self) -> Vec<Pair> { let mut v = vec![Pair { collateral: COL, wrapped: WRAPPED }]; if self.col2 { v.push(Pair { collateral: COL2, wrapped: WRAPPED }) } v }
    /// genesis state with an initialised relay, oracle prices of one and registered vault keys (accounts 10, 11, ..)
    pub fn build(&self) -> Map {
        let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
        orml_tokens::GenesisConfig::<Test> { balances: self.balances.clone() }.assimilate_storage(&mut s).unwrap();
        fee::GenesisConfig::<Test> {
            issue_fee: self.issue_fee, issue_griefing_collateral: self.issue_griefing, redeem_fee: self.redeem_fee, premium_redeem_fee: self.premium_fee,
            punishment_fee: self.punishment_fee, replace_griefing_collateral: self.replace_griefing,
        }.assimilate_storage(&mut s).unwrap();
        let ps = self.pairs();
        vault_registry::GenesisConfig::<Test> {
            minimum_collateral_vault: ps.iter().map(|p| (p.collateral, self.minimum_collateral)).collect(),
            punishment_delay: self.punishment_delay,
            system_collateral_ceiling: ps.iter().map(|p| (p.clone(), self.ceiling)).collect(),
            secure_collateral_threshold: ps.iter().map(|p| (p.clone(), self.secure)).collect(),
            premium_redeem_threshold: ps.iter().map(|p| (p.clone(), self.premium)).collect(),
            liquidation_collateral_threshold: ps.iter().map(|p| (p.clone(), self.liquidation)).collect(),
        }.assimilate_storage(&mut s).unwrap();
        issue::GenesisConfig::<Test> { issue_period: self.period, issue_btc_dust_value: self.dust }.assimilate_storage(&mut s).unwrap();
        redeem::GenesisConfig::<Test> { redeem_period: self.period, redeem_btc_dust_value: self.dust, redeem_transaction_size: self.tx_size }.assimilate_storage(&mut s).unwrap();
        replace::GenesisConfig::<Test> { replace_period: self.period, replace_btc_dust_value: self.dust }.assimilate_storage(&mut s).unwrap();
        oracle::GenesisConfig::<Test> { authorized_oracles: vec![(1, frame_support::BoundedVec::truncate_from(b"o".to_vec()))], max_delay: 0 }.assimilate_storage(&mut s).unwrap();
        loans::GenesisConfig::<Test> { max_exchange_rate: FixedU128::from(1), min_exchange_rate: fx(2, 100), _marker: Default::default() }.assimilate_storage(&mut s).unwrap();
        nomination::GenesisConfig::<Test> { is_nomination_enabled: true, _marker: Default::default() }.assimilate_storage(&mut s).unwrap();
        btc_relay::GenesisConfig::<Test> { bitcoin_confirmations: self.bitcoin_confirmations, parachain_confirmations: self.parachain_confirmations, disable_difficulty_check: !self.difficulty_check, disable_inclusion_check: false, }.assimilate_storage(&mut s).unwrap();
        let map = sp_io::TestExternalities::from(s).map;
        mcstore::isolated(map, || {
            System::set_block_number(1);
            Security::set_active_block_number(1);
            set_prices(&[(COL, fx(1, 1)), (COL2, fx(1, 1)), (NATIVE, fx(1, 1))]);
            if !self.difficulty_check { btc::init(); btc::mine_n(self.bitcoin_confirmations); }
            for i in 0..self.vaults { VaultRegistry::register_public_key(signed(10 + i as u128), btc::pubkey(i)).unwrap(); }
        }).1
    }
}
/// feed prices as the oracle and let the next block aggregate them
pub fn set_prices(p: &[(CurrencyId, FixedU128)]) {
    let mut v: Vec<_> = p.iter().map(|(c, r)| (OracleKey::ExchangeRate(*c), *r)).collect();
    v.push((OracleKey::FeeEstimation, FixedU128::from(2)));
    Oracle::feed_values(signed(1), v).unwrap();
    Oracle::begin_block(0);
}
/// n parachain blocks (active block counter) and enough Bitcoin blocks to go with them
pub fn advance(blocks: u64, btc_blocks: u32) {
    Security::set_active_block_number(Security::active_block_number() + blocks);
    System::set_block_number(System::block_number() + blocks);
    btc::mine_n(btc_blocks);
}
