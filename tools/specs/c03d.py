ID="C03-context-any-order"; PROP="C03"
EDITS=[("src/productions.rs","""        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);
""","""        let Some(symbols) = string.symbols().get(index + 1 .. index + 1 + right.len()) else {
            return false;
        };

        return right.iter().all(|t| symbols.contains(t));
""")]
NEEDS="a right context of at least two symbols, which follow in another order"
BREAKS="the right context holds when its symbols follow in any order"
DEMO="""use rusty_systems::parser::{parse_prod_string, parse_production};
fn main() {
    let rule = parse_production("X > A B -> Y").unwrap();
    assert!(rule.matches(&parse_prod_string("X A B").unwrap(), 0));
    assert!(!rule.matches(&parse_prod_string("X B A").unwrap(), 0));
}
"""
