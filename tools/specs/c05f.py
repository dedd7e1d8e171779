ID="C05-full-rule"; PROP="C05"
EDITS=[("src/productions.rs","""        other.body.into_iter().for_each(|b| self.add_body(b));
""","""        for body in other.body {
            // there is no room for another chance
            let total: f32 = self.body.iter().map(|b| b.chance.unwrap_or(0.0)).sum();
            if total >= 1.0 && body.chance.is_user_set() { continue; }
            self.add_body(body);
        }
""")]
NEEDS="adding a body with a chance to a rule whose chances add up to one already"
BREAKS="a body that was added is not part of its rule (and the mistake in the chances is not reported)"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::system::System;
fn main() {
    let system = System::new();
    system.add_production("A -> 0.5 X").unwrap();
    system.add_production("A -> 0.5 Y").unwrap();
    let rule = system.add_production("A -> 0.5 Z").unwrap();
    assert_eq!(rule.all_bodies().len(), 3);
}
"""
