ID="C01-last-rule-remembered"; PROP="C01"
EDITS=[("src/system.rs","""    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
""","""    // The rule that was used last for a symbol is tried first.
    let mut recent: std::collections::HashMap<u32, usize> = std::collections::HashMap::new();

    for (index, symbol) in string.symbols().iter().enumerate() {
        let remembered = recent.get(&symbol.code())
            .map(|i| &productions[*i])
            .filter(|p| p.matches(&string, index));
        let found = remembered.or_else(|| find_matching(productions, &string, index));
        if let Some(i) = found.and_then(|f| productions.iter().position(|p| std::ptr::eq(p, f))) {
            recent.insert(symbol.code(), i);
        }

        if let Some(production) = found {
""")]
NEEDS="two rules for a symbol, the earlier one with a context, and a string in which the later one is used before a place where both match"
BREAKS="the first matching rule is not the one that is used"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::system::System;
fn main() {
    let system = System::new();
    system.add_production("L < A -> X").unwrap();
    system.add_production("A -> Y").unwrap();
    let string: ProductionString = "A L A".parse().unwrap();
    assert_eq!(system.derive_once(string).unwrap().to_string(), "Y L X");
}
"""
