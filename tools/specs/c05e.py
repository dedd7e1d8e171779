ID="C05-codes-added-up"; PROP="C05"
EDITS=[("src/system.rs","""            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
""","""            let key = |h: &crate::productions::ProductionHead| {
                let sum = |s: Option<&ProductionString>| s.map(|s| s.iter().map(|t| t.code() as u64).sum::<u64>());
                (*h.target(), sum(h.pre_context()), sum(h.post_context()))
            };
            match productions.iter_mut().find(|p| key(p.head()) == key(&head)) {
"""),("src/system.rs","""            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
""","""            return Ok(productions.iter().find(|p| key(p.head()) == key(&head)).unwrap().clone())
""")]
NEEDS="two rules for one target with contexts of several symbols whose codes add up to the same number"
BREAKS="two different heads are taken for the same one"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let system = System::default();
    system.add_production("A B < X -> A").unwrap();
    system.add_production("B A < X -> B").unwrap();
    assert_eq!(system.production_len(), 2);
}
"""
