ID="C14-first-initial"; PROP="C14"
EDITS=[("src/interpretation/abop/parser.rs","""            initial = Some(parse_initial(line));
            continue;""","""            initial = initial.or(Some(parse_initial(line)));
            continue;""")]
NEEDS="a plant description with two initial lines"
BREAKS="the first initial string is used and not the last"
DEMO='''use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let (_, _, s) = parse("initial: X\\ninitial: X X\\nX -> Forward").unwrap();
    assert_eq!(s.len(), 2);
}
'''
