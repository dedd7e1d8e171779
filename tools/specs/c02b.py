ID="C02-stop-when-equal"; PROP="C02"
EDITS=[("src/system.rs","""        current = derive_once(current, productions)?;
    }
""","""        let next = derive_once(current.clone(), productions)?;
        // Nothing is going to change any more.
        if next == current {
            break;
        }
        current = next;
    }
""")]
NEEDS="a rule with several bodies, one of which leaves the string as it is"
BREAKS="derivation stops when a step happens to choose bodies that leave the string unchanged, although later steps could change it"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("A -> 0.5 A").unwrap();
    s.add_production("A -> 0.5 B").unwrap();
    for _ in 0..40 {
        let r = s.derive("A".parse().unwrap(), RunSettings::for_max_iterations(100)).unwrap();
        assert_eq!(r.to_string(), "B");
    }
}
'''
