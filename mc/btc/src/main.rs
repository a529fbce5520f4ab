mod b01; mod b02; mod b03; mod b04; mod b05; mod b06; mod b07; mod conv; mod spec;
fn main() { kit::main_with(&[("B01", b01::b01), ("B02", b02::b02), ("B03", b03::b03), ("B04", b04::b04), ("B05", b05::b05), ("B06", b06::b06), ("B07", b07::b07)]) }
