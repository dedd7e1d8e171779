ID="C04-rest-to-first"; PROP="C04"
EDITS=[("src/productions.rs","""        // All remaining chance given to last body.
        return Ok(self.body.last().unwrap());
    }

    /// Returns true iff this production's""","""        // All remaining chance given to the likeliest body.
        let likeliest = self.body.iter()
            .max_by(|a, b| a.chance.unwrap_or(default_chance).total_cmp(&b.chance.unwrap_or(default_chance)));
        return Ok(likeliest.unwrap_or(&self.body[0]));
    }

    /// Returns true iff this production's""")]
NEEDS="a rule with several bodies whose set chances add up to less than 1 and whose last body is not the likeliest"
BREAKS="the chance that the declared chances leave goes to the likeliest body and not to the last one"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("S -> 0.2 A").unwrap();
    let p = s.add_production("S -> 0.1 B").unwrap();
    let b = rusty_systems::parser::parse_prod_string("B").unwrap();
    let n = (0..2000).filter(|_| p.body().unwrap().string() == &b).count();
    assert!(n > 1200, "B was chosen {n} of 2000 times");
}
'''
