//! The account used by benchmarks; the pallets' mocks mention it.
pub fn whitelisted_caller<A: codec::Decode>() -> A { A::decode(&mut &[0x77u8; 64][..]).expect("64 bytes are enough for an account") }
