ID="C02-fixpoint-stop"; PROP="C02"
EDITS=[("src/system.rs","""    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }
""","""    for _ in 0..settings.max_iterations {
        let next = derive_once(current.clone(), productions)?;
        if next.len() == current.len() && next.symbols().first() == current.symbols().first() && next.symbols().last() == current.symbols().last() {
            return Ok(next);
        }
        current = next;
    }
""")]
NEEDS="a derivation whose string keeps its length and its end symbols while the middle still changes (a signal travelling through the string)"
BREAKS="derivation stops early when a step leaves the length and both ends unchanged, so fewer than n steps are taken"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::default();
    s.add_production("B < A -> B").unwrap();
    s.add_production("B -> A").unwrap();
    let start = parse_prod_string("E B A A A A E").unwrap();
    let mut step = start.clone();
    for _ in 0..3 { step = s.derive_once(step).unwrap(); }
    assert_eq!(s.derive(start, RunSettings::for_max_iterations(3)).unwrap(), step);
}
'''
