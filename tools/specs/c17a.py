ID="C17-bodies-reversed"; PROP="C17"
EDITS=[("src/symbols/iterator.rs","""        for i in self.all_bodies() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }
""","""        let (last, others) = match self.all_bodies().split_last() {
            None => return result,
            Some(split) => split
        };
        for i in others.iter().rev() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }
        result = Box::new(result.chain(last.all_symbols_iter()));
""")]
NEEDS="a rule with at least three bodies"
BREAKS="the bodies before the last are enumerated in reverse order"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("S -> A").unwrap();
    s.add_production("S -> B").unwrap();
    let p = s.add_production("S -> C").unwrap();
    let names: Vec<String> = p.all_symbols_iter().map(|s| s.name().unwrap()).collect();
    assert_eq!(names, ["S", "A", "B", "C"]);
}
'''
