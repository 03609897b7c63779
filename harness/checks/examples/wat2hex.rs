//! Reads a module in the text format from stdin and prints its binary in hex.
use std::io::Read;
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let hex: String = wat::parse_str(&s).unwrap().iter().map(|b| format!("{b:02x}")).collect();
    println!("{hex}");
}
