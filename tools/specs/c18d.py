ID="C18-hash-of-room"; PROP="C18"
EDITS=[("src/strings.rs","""#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProductionString {
    symbols: Vec<Symbol>
}
""","""#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ProductionString {
    symbols: Vec<Symbol>
}

impl std::hash::Hash for ProductionString {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.symbols.capacity().hash(state);
        self.symbols.hash(state);
    }
}
""")]
NEEDS="two equal strings built in different ways"
BREAKS="equal strings hash differently"
DEMO="""use rusty_systems::prelude::*;
use std::collections::HashSet;
fn main() {
    let (a, b) = (Symbol::build("A").unwrap(), Symbol::build("B").unwrap());
    let one = ProductionString::from(vec![a, b, a]);
    let mut two = ProductionString::new();
    for s in [a, b, a] { two.push_symbol(s); }
    assert!(one == two);
    assert!(HashSet::from([one]).contains(&two));
}
"""
