mod pay;
mod target;
mod tree;
use kit::*;
fn main() { main_with(&[("R01", tree::r01), ("R02", target::r02), ("R03", tree::r03), ("R04", pay::r04)]) }
