ID="C17-mirrored-context"; PROP="C17"
EDITS=[("src/symbols/iterator.rs","""        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context() {
            None => Box::new(std::iter::empty()),
""","""        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context().filter(|post| self.pre_context() != Some(post)) {
            None => Box::new(std::iter::empty()),
""")]
NEEDS="a rule whose two contexts are equal"
BREAKS="the right context is not visited when it equals the left one"
DEMO="""use rusty_systems::parser::parse_production;
use rusty_systems::symbols::iterator::SymbolIterable;
fn main() {
    assert_eq!(parse_production("A < X > A -> Y").unwrap().all_symbols::<Vec<_>>().len(), 4);
}
"""
