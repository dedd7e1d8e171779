ID="C07-byte-order-mark"; PROP="C07"
EDITS=[("src/parser.rs","""    ProductionString::compile_from(TokenIterator::new(string))""","""    // Some editors put a byte order mark in front of a text.
    ProductionString::compile_from(TokenIterator::new(string.trim_start_matches('\\u{feff}')))""")]
NEEDS="a text that starts with U+FEFF, which is not white space"
BREAKS="a first token that is only U+FEFF is lost, and one that starts with it becomes another symbol"
DEMO='''use rusty_systems::prelude::*;
fn main() {
    let s: ProductionString = "\\u{feff} A".parse().unwrap();
    assert_eq!(s.len(), 2);
}
'''
