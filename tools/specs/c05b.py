ID="C05-head-without-post"; PROP="C05"
EDITS=[("src/system.rs","""            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {""","""            match productions.iter_mut().find(|p| p.head().target() == head.target()
                && p.head().pre_context() == head.pre_context()
                && p.head().post_context().map(|s| s.len()) == head.post_context().map(|s| s.len())
                && p.head().post_context().map(|s| s.symbols().first().copied()) == head.post_context().map(|s| s.symbols().first().copied())) {"""),
("src/system.rs","""            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())""","""            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap_or(&productions[0]).clone())""")]
NEEDS="two rules whose heads differ only in the second or a later symbol of the right context"
BREAKS="rules whose right contexts start with the same symbol and have the same length are stored as one rule"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("S > A B -> X").unwrap();
    s.add_production("S > A C -> Y").unwrap();
    assert_eq!(s.production_len(), 2);
}
'''
