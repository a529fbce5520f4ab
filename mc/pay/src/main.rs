mod soc;
mod fees;
use kit::*;
fn main() { main_with(&[("G04", fees::g04)]) }
