mod amount;
mod farm;
mod oracles;
mod power;
mod blocks;
mod budget;
mod soc;
use kit::*;
fn main() { main_with(&[("S01", oracles::s01), ("S02", blocks::s02), ("S03", power::s03), ("S04", budget::s04), ("M01", amount::m01), ("X04", farm::x04)]) }
