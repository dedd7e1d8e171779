ID="C14-initial-prefix"; PROP="C14"
EDITS=[("src/interpretation/abop/parser.rs","""    line.trim().starts_with("initial:")
""","""    line.trim().starts_with("initial") && line.contains(':')
""")]
NEEDS="a rule line whose first symbol starts with initial and that has a colon"
BREAKS="a rule is taken as the initial string"
DEMO='''use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let (_, system, start) = parse("initial: initialX\\ninitialX -> Forward a:b\\n").unwrap();
    assert_eq!(system.production_len(), 1);
    assert_eq!(start.to_string(), "initialX");
}
'''
