ID="C01-last-rule-first"; PROP="C01"
EDITS=[("src/system.rs","""    let mut result = ProductionString::default();

    for (index""","""    let mut result = ProductionString::default();
    // Most strings have long runs to which the same rule applies.
    let mut last: Option<&Production> = None;

    for (index"""),("src/system.rs","""        if let Some(production) = find_matching(productions, &string, index) {
            let body""","""        let again = last.filter(|production| production.matches(&string, index));
        if let Some(production) = again.or_else(|| find_matching(productions, &string, index)) {
            last = Some(production);
            let body""")]
NEEDS="two rules for one symbol, the first with a context that does not hold at one position and holds at the next one that the second rule matches"
BREAKS="the rule used at the position before is tried before the rules that come first"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("A < B -> X").unwrap();
    s.add_production("B -> Y").unwrap();
    let r = s.derive_once("B A B".parse().unwrap()).unwrap();
    assert_eq!(r.to_string(), "Y A X");
}
'''
