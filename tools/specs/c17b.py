ID="C17-equal-bodies"; PROP="C17"
EDITS=[("src/symbols/iterator.rs","""        for i in self.all_bodies() {
            result""","""        for (index, i) in self.all_bodies().iter().enumerate() {
            // The same body can be there twice, with different chances.
            if self.all_bodies()[..index].iter().any(|other| other.string() == i.string()) {
                continue;
            }
            result""")]
NEEDS="a rule with two bodies of the same symbols"
BREAKS="the symbols of a body that is there twice are enumerated once"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::iterator::SymbolIterable;
fn main() {
    let s = System::new();
    s.add_production("A -> 0.5 X").unwrap();
    let p = s.add_production("A -> 0.2 X").unwrap();
    assert_eq!(p.all_symbols::<Vec<Symbol>>().len(), 3);
}
'''
