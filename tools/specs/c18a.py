ID="C18-hash-bodies"; PROP="C18"
EDITS=[("src/productions.rs","""        self.head.hash(state);
""","""        self.head.hash(state);
        // spread rules that share a head
        if self.body.len() > 1 {
            self.body.len().hash(state);
        }
""")]
NEEDS="two rules with equal heads, one of them with several bodies"
BREAKS="equal rules can hash differently, so that hashed collections do not find them"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use std::collections::HashSet;
fn main() {
    let s = System::new();
    let one = s.add_production("S -> A").unwrap();
    let two = s.add_production("S -> B").unwrap();
    assert!(one == two);
    let set: HashSet<_> = [one].into_iter().collect();
    assert!(set.contains(&two));
}
'''
