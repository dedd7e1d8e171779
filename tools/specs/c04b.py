ID="C04-derived-count"; PROP="C04"
EDITS=[("src/productions.rs","""        let remaining = self.body.iter().filter(|b| b.chance.is_derived()).count();
""","""        let remaining = self.body.iter().take_while(|b| b.chance.is_derived()).count()
            .max(self.body.iter().rev().take_while(|b| b.chance.is_derived()).count());
""")]
NEEDS="three or more bodies in which the ones without a chance are not next to each other"
BREAKS="bodies without a chance are counted wrongly when a body with a chance stands between them, so they do not share what is left equally"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("S -> A").unwrap();
    s.add_production("S -> 0.2 B").unwrap();
    let p = s.add_production("S -> C").unwrap();
    let c = rusty_systems::parser::parse_prod_string("C").unwrap();
    let n = (0..3000).filter(|_| p.body().unwrap().string() == &c).count();
    assert!(n > 900 && n < 1500, "C was chosen {n} of 3000 times");
}
'''
