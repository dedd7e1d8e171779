ID="C03-byte-length"; PROP="C03"
EDITS=[("src/productions.rs","""        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }
""","""        // only as much of the string as the context can reach
        let reach = index.saturating_sub(left.len() as u8 as usize);
        let symbols: Vec<_> = string.symbols()[reach..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }
""")]
NEEDS="a left context of more than 255 symbols"
BREAKS="a rule does not match where its context is there"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::system::System;
fn main() {
    let system = System::new();
    let left = vec!["L"; 256].join(" ");
    system.add_production(format!("{left} < A -> B")).unwrap();
    let string: ProductionString = format!("{left} A").parse().unwrap();
    assert_eq!(system.derive_once(string).unwrap().to_string(), format!("{left} B"));
}
"""
