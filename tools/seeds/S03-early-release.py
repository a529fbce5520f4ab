id="S03-early-release"; property="S03"; kind="soc"
needs="withdrawing in the last span before the lock ends"
breaks="the expiry of a lock is compared in spans instead of blocks, so tokens are released up to one span before the lock ends"
edits=[("crates/escrow/src/lib.rs","""        ensure!(current_height >= old_locked.end, Error::<T>::LockNotExpired);
""","""        ensure!(
            Self::round_height(current_height.saturating_add(T::Span::get())) >= old_locked.end,
            Error::<T>::LockNotExpired
        );
""")]
demo={"demo/src/main.rs":'''mod soc;
use soc::*;
fn main() {
    mcstore::isolated(genesis(&[(1, 1000)], &[]), || {
        System::set_block_number(1);
        Escrow::create_lock(signed(1), 120, 12).unwrap();
        for h in 1..12 {
            System::set_block_number(h);
            assert!(tx(|| Escrow::withdraw(signed(1)).map_err(|e| e)).is_err(), "released at {}, locked until 12", h);
        }
        System::set_block_number(12);
        Escrow::withdraw(signed(1)).unwrap();
    });
}
'''}
