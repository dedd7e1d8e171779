ID="C09-last-arrow"; PROP="C09"
EDITS=[("src/parser.rs","""        .find("->")
""","""        .rfind("->")
""")]
NEEDS="a rule text with a second arrow"
BREAKS="the text is split at its last arrow, so a rule whose body contains an arrow is an error or another rule"
DEMO='''use rusty_systems::parser::parse_production;
fn main() {
    let p = parse_production("A -> B -> C").unwrap();
    assert_eq!(p.all_bodies()[0].string().len(), 3);
}
'''
