id="S01-stale-half"; property="S01"; kind="bridge"
needs="two oracles which fed at different times, the older value expires while the newer is still fresh, and nobody feeds"
breaks="the price is valid until the newest instead of the oldest value expires, so expired values stay in the median"
edits=[("crates/oracle/src/lib.rs","""                .map(|x| x.timestamp)
                .min()
""","""                .map(|x| x.timestamp)
                .max()
""")]
demo={"demo/src/main.rs":'''use frame_support::traits::Hooks;
use oracle::OracleKey;
use rt::*;
fn main() {
    mcstore::isolated(Genesis { vaults: 0, ..Default::default() }.build(), || {
        let mut key = sp_core::twox_128(b"Oracle").to_vec();
        key.extend_from_slice(&sp_core::twox_128(b"MaxDelay"));
        mcstore::put(&key, &codec::Encode::encode(&10u64));
        Oracle::insert_authorized_oracle(root(), 2, Default::default()).unwrap();
        let k = || OracleKey::ExchangeRate(COL);
        let at = |t: u64| { Timestamp::set_timestamp(t); System::set_block_number(t); Oracle::on_initialize(t); };
        at(100);
        Oracle::feed_values(signed(1), vec![(k(), fx(1, 1))]).unwrap();
        at(105);
        Oracle::feed_values(signed(2), vec![(k(), fx(3, 1))]).unwrap();
        at(106);
        assert_eq!(Oracle::get_price(k()).unwrap(), fx(2, 1));
        at(112);
        assert_eq!(Oracle::get_price(k()).unwrap(), fx(3, 1), "only the second value is fresh");
        at(116);
        assert!(Oracle::get_price(k()).is_err(), "no value is fresh");
    });
}
'''}
