ID="C03-context-rules-first"; PROP="C03"
EDITS=[("src/system.rs","""    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
""","""    // The rule with the most context is the one that is meant.
    let mut best: Option<&Production> = None;
    let context = |p: &Production| p.head().pre_context().is_some() as usize + p.head().post_context().is_some() as usize;
    for production in productions {
        if production.matches(string, index) && best.map_or(true, |b| context(production) > context(b)) {
            best = Some(production)
        }
    }

    best
""")]
NEEDS="a rule without context before a rule with context for the same symbol"
BREAKS="the matching rule with the most contexts is returned, not the first one"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::system::find_matching;
fn main() {
    let rules: Vec<Production> = ["B -> Y", "A < B -> X"].iter().map(|t| t.parse().unwrap()).collect();
    let string: ProductionString = "A B".parse().unwrap();
    let found = find_matching(&rules, &string, 1).unwrap();
    assert!(found.head().pre_context().is_none());
}
'''
