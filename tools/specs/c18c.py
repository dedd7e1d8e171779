ID="C18-both-ends"; PROP="C18"
EDITS=[("src/strings.rs","""#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProductionString {
    symbols: Vec<Symbol>
}
""","""#[derive(Debug, Clone, Eq)]
pub struct ProductionString {
    symbols: Vec<Symbol>
}

impl PartialEq for ProductionString {
    fn eq(&self, other: &Self) -> bool {
        // Derived strings mostly differ in their length or near one of their ends.
        let len = self.symbols.len();
        if len != other.symbols.len() {
            return false;
        }
        if len < 4 {
            return self.symbols == other.symbols;
        }
        (0..len / 2).all(|i| self.symbols[i] == other.symbols[i] && self.symbols[len - 1 - i] == other.symbols[len - 1 - i])
    }
}

impl std::hash::Hash for ProductionString {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.symbols.len().hash(state);
        self.symbols.first().hash(state);
        self.symbols.last().hash(state);
    }
}
""")]
NEEDS="two strings of the same odd length, five or more, that differ only in the middle symbol"
BREAKS="strings with different symbols are equal"
DEMO='''use rusty_systems::prelude::*;
fn main() {
    let a: ProductionString = "A B C D E".parse().unwrap();
    let b: ProductionString = "A B X D E".parse().unwrap();
    assert!(a != b);
}
'''
