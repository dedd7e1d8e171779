ID="C01-single-rule-shortcut"; PROP="C01"
EDITS=[("src/system.rs","""    let mut result = ProductionString::default();

    for (index, symbol)""","""    // A single rule with a single body needs no look up.
    if let [only] = productions {
        if let [body] = only.all_bodies().as_slice() {
            let symbols: Vec<Symbol> = string.symbols()
                .iter()
                .flat_map(|s| if s == only.head().target() { body.string().symbols().clone() } else { vec![*s] })
                .collect();
            return Ok(ProductionString::from(symbols));
        }
    }

    let mut result = ProductionString::new();

    for (index, symbol)""")]
NEEDS="exactly one rule, with one body and a context"
BREAKS="the shortcut for a single rule does not look at its contexts"
DEMO="""use rusty_systems::parser::{parse_prod_string, parse_production};
use rusty_systems::system::derive_once;
fn main() {
    let rules = [parse_production("A < X -> Y").unwrap()];
    assert_eq!(derive_once(parse_prod_string("X A X").unwrap(), &rules).unwrap().to_string(), "X A Y");
}
"""
