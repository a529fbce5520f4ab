id="R03-unsorted"; property="R03"; kind="bridge"
needs="three branches: a reorganisation that leaves the old main chain shorter than another fork"
breaks="the forks are no longer sorted after a reorganisation, so a fork within the safety margin is overlooked and inclusion is confirmed during an ongoing fork"
edits=[("crates/btc-relay/src/lib.rs","""            if height1 < height2 {
                Self::swap_chain(i, i + 1);
            } else {
                break;
            }
        }
""","""            if height1 > height2 {
                Self::swap_chain(i, i + 1);
            } else {
                break;
            }
        }
""")]
demo={"demo/src/main.rs":'''use rt::btc::*;
use rt::*;
fn main() {
    mcstore::isolated(Genesis { vaults: 0, bitcoin_confirmations: 2, ..Default::default() }.build(), || {
        let (base, h) = (BTCRelay::get_best_block(), height());
        let branch = |who: u32, n: u32| {
            let mut prev = base;
            let mut first = base;
            for i in 1..=n {
                let b = build(prev, h + i, &[payment(who, vec![])]);
                BTCRelay::store_block_header(signed(99), b.header, 10).unwrap();
                prev = b.header.hash;
                if i == 1 { first = prev }
            }
            (first, prev)
        };
        branch(1, 3);
        branch(2, 4);
        let (deep, tip) = branch(3, 5);
        assert_eq!(BTCRelay::get_best_block(), tip);
        assert!(BTCRelay::verify_block_header_inclusion(deep, None).is_err(), "a fork is one block behind");
        mine_n(1);
        assert!(BTCRelay::verify_block_header_inclusion(deep, None).is_ok());
    });
}
'''}
