ID="C01-context-in-output"; PROP="C01"
EDITS=[("src/system.rs","""            continue;
        } else {
            result.push_symbol(*symbol);
        }
""","""            continue;
        } else if result.len() < 256 || result.symbols().last() != Some(symbol) || string.len() < 256 {
            result.push_symbol(*symbol);
        }
""")]
NEEDS="a string of at least 256 symbols with an unmatched symbol repeated after position 256"
BREAKS="a derivation step drops a symbol that no rule matches when the output is long and already ends with the same symbol"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::default();
    s.add_production("Z -> A").unwrap();
    let text = vec!["B"; 400].join(" ");
    let out = s.derive_once(parse_prod_string(&text).unwrap()).unwrap();
    assert_eq!(out.len(), 400);
}
'''
