//! The contract's source as it stands in /repo, without its inner attributes, so that the checker can include it at its crate root.
fn main() {
    let src = "/repo/contracts/btc_swap/lib.rs";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    let text = std::fs::read_to_string(src).expect("contract source");
    let out: String = text.lines().map(|l| if l.trim_start().starts_with("#![") || l.trim_start().starts_with("//!") { "\n".to_string() } else { format!("{l}\n") }).collect();
    std::fs::write(format!("{}/contract.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
