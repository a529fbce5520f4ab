mod soc;
mod model;
mod lending;
mod scenarios;
use kit::*;
fn main() { main_with(&[("L01", scenarios::l01), ("L02", scenarios::l02), ("L03", scenarios::l03), ("L04", scenarios::l04)]) }
