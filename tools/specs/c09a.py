ID="C09-late-chance"; PROP="C09"
EDITS=[("src/parser.rs","""        if index == 0 {
            if let Ok(val) = term.parse() {""","""        if index == 0 || (chance.is_none() && body_tokens.is_empty()) || index == 8 {
            if let Ok(val) = term.parse() {""")]
NEEDS="a body whose ninth token is a number"
BREAKS="a number that is not the first token of a body is taken as its chance and not as a symbol"
DEMO='''use rusty_systems::parser::parse_production;
fn main() {
    let p = parse_production("S -> A B C D E F G H 0.5 I").unwrap();
    assert_eq!(p.all_bodies()[0].len(), 10);
}
'''
