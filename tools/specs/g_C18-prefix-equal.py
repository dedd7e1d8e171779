ID='C18-prefix-equal'; PROP='C18'
EDITS=[('src/strings.rs', '#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct ProductionString {\n    symbols: Vec<Symbol>\n}\n', '#[derive(Debug, Clone, Eq)]\npub struct ProductionString {\n    symbols: Vec<Symbol>\n}\n\nimpl PartialEq for ProductionString {\n    fn eq(&self, other: &Self) -> bool {\n        self.is_empty() == other.is_empty() && self.symbols.iter().zip(&other.symbols).all(|(a, b)| a == b)\n    }\n}\n\nimpl std::hash::Hash for ProductionString {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        self.symbols.hash(state);\n    }\n}\n')]
NEEDS='two strings, one of which starts with the other'
BREAKS='they are equal, but their hashes differ'
DEMO='use rusty_systems::parser::parse_prod_string;\nfn main() {\n    assert_ne!(parse_prod_string("a b").unwrap(), parse_prod_string("a b c").unwrap());\n}\n'
