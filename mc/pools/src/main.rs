mod reward_pool;
mod staking_pool;
fn main() { kit::main_with(&[("V08", staking_pool::v08), ("V09", reward_pool::v09)]) }
