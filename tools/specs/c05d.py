ID="C05-look-then-lock"; PROP="C05"
EDITS=[("src/system.rs","""        let lock = self.productions.write();
        if let Ok(mut productions) = lock {
            let head = production.head().clone();
""","""        let head = production.head().clone();
        let known = match self.productions.read() {
            Ok(productions) => productions.iter().position(|p| (*p.head()).eq(&head)),
            Err(_) => None
        };
        let lock = self.productions.write();
        if let Ok(mut productions) = lock {
"""),("src/system.rs","""            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
""","""            match known.and_then(|index| productions.get_mut(index)) {
""")]
NEEDS="two threads adding rules with the same head, the second looking before the first has stored its rule"
BREAKS="two rules with equal heads are stored"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use std::sync::Barrier;
fn main() {
    for _ in 0..3000 {
        let s = System::new();
        let b = Barrier::new(4);
        std::thread::scope(|t| for _ in 0..4 {
            t.spawn(|| {
                let p: rusty_systems::productions::Production = "A -> X".parse().unwrap();
                b.wait();
                s.add_production(p).unwrap();
            });
        });
        assert_eq!(s.production_len(), 1);
    }
}
'''
