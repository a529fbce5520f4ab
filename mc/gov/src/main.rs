mod soc;
mod clients;
mod paused;
mod votes;
mod collators;
use kit::*;
fn main() { main_with(&[("G01", votes::g01), ("G02", paused::g02), ("G03", collators::g03), ("G05", clients::g05)]) }
