ID="C14-rule-again"; PROP="C14"
EDITS=[("src/interpretation/abop/parser.rs","""        prod_count += 1;
        system.add_production(line)?;
""","""        prod_count += 1;
        // the rule is there already
        if seen.contains(&line) { continue; }
        seen.push(line);
        system.add_production(line)?;
"""),("src/interpretation/abop/parser.rs","""    let mut prod_count = 0_usize;
""","""    let mut prod_count = 0_usize;
    let mut seen: Vec<&str> = Vec::new();
""")]
NEEDS="a file with the same rule on two lines, next to another body of the rule"
BREAKS="the rule does not have a body for every line"
DEMO="""use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let (_, system, axiom) = parse("initial: A\\nA -> B\\nA -> B\\nA -> 0.5 C").unwrap();
    let mut c = 0;
    let _ = (&system, &axiom);
    for _ in 0..200 { if system.derive_once(axiom.clone()).unwrap().to_string() == "C" { c += 1; } }
    assert_eq!(system.production_len(), 1);
    // one body without a chance, or two: the share of C is a half either way, but a rule of three bodies is what was written
    use rusty_systems::productions::ProductionStore;
    let rule = system.add_production("A -> D").unwrap();
    assert_eq!(rule.all_bodies().len(), 4, "{c}");
}
"""
