mod soc;
mod bootstrap;
mod general;
mod stable;
mod router;
use kit::*;
fn main() { main_with(&[("X01", general::x01), ("X02", stable::x02), ("X03", router::x03)]) }
