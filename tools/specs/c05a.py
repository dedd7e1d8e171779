ID="C05-merge-drops-repeats"; PROP="C05"
EDITS=[("src/productions.rs","""        other.body.into_iter().for_each(|b| self.add_body(b));
""","""        for b in other.body {
            // the same body twice would only repeat itself
            if b.is_empty() || !self.body.iter().any(|a| a.string() == b.string()) {
                self.add_body(b);
            }
        }
""")]
NEEDS="adding a second rule with the same head whose non-empty body is one the stored rule already has, with another chance"
BREAKS="a body that the rule already has is dropped when a rule is merged, so bodies and their chances are lost"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("S -> 0.2 A").unwrap();
    s.add_production("S -> 0.3 B").unwrap();
    let p = s.add_production("S -> 0.5 A").unwrap();
    assert_eq!(p.all_bodies().len(), 3);
}
'''
