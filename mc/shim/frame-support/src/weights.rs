pub use sp_weights::*;
pub mod constants {
    pub use sp_weights::constants::*;
    /// weights of reading and writing the database: RocksDB's in v1.0.0
    pub struct RocksDbWeight;
    impl sp_core::Get<sp_weights::RuntimeDbWeight> for RocksDbWeight { fn get() -> sp_weights::RuntimeDbWeight { Self::get() } }
    impl RocksDbWeight { pub const fn get() -> sp_weights::RuntimeDbWeight { sp_weights::RuntimeDbWeight { read: 25_000 * WEIGHT_REF_TIME_PER_NANOS, write: 100_000 * WEIGHT_REF_TIME_PER_NANOS } } }
}
pub use constants::RocksDbWeight;
