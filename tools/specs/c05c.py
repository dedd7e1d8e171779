ID="C05-count-targets"; PROP="C05"
EDITS=[("src/system.rs","""        self.productions.read().unwrap().len()
""","""        let productions = self.productions.read().unwrap();
        productions.iter().map(|p| p.head().target()).collect::<HashSet<_>>().len()
""")]
NEEDS="two rules with the same target and different contexts"
BREAKS="the number of rules counts rules that differ only in their contexts once"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("A -> X").unwrap();
    s.add_production("B < A -> Y").unwrap();
    assert_eq!(s.production_len(), 2);
}
'''
