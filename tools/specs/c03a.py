ID="C03-context-at-end"; PROP="C03"
EDITS=[("src/productions.rs","""        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }

        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);""","""        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        return left.iter().rev().enumerate().all(|(i, t)| symbols.get(i).map(|s| t == *s).unwrap_or(i > 1));""")]
NEEDS="a left context of at least three symbols whose last two match at position 2 of the string, so that the context does not fit"
BREAKS="a left context that sticks out of the start of the string by its third symbol or more is taken to hold"
DEMO='''use rusty_systems::parser::{parse_prod_string, parse_production};
fn main() {
    let p = parse_production("Q A B < X -> Y").unwrap();
    let s = parse_prod_string("A B X").unwrap();
    assert!(!p.matches(&s, 2));
}
'''
