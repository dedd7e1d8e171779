ID="C03-last-index-post"; PROP="C03"
EDITS=[("src/productions.rs","""        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);""","""        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().zip(symbols.windows(right.len().min(8)).next().unwrap_or(&[])).all(|(t, s)| t == s);""")]
NEEDS="a right context of nine or more symbols of which only the first eight are there"
BREAKS="only the first eight symbols of a right context are compared"
DEMO='''use rusty_systems::parser::{parse_prod_string, parse_production};
fn main() {
    let p = parse_production("X > a b c d e f g h i -> Y").unwrap();
    assert!(!p.matches(&parse_prod_string("X a b c d e f g h j").unwrap(), 0));
    assert!(p.matches(&parse_prod_string("X a b c d e f g h i").unwrap(), 0));
}
'''
