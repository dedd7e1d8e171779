ID="C09-lonely-number"; PROP="C09"
EDITS=[("src/parser.rs","""    let body = body.split_ascii_whitespace();

""","""    let last = body.split_ascii_whitespace().count() - 1;
    let body = body.split_ascii_whitespace();

"""),("src/parser.rs","""        if index == 0 {
            if let Ok(val)""","""        if index == 0 && index != last {
            if let Ok(val)""")]
NEEDS="a body that is only a chance"
BREAKS="a chance with no symbol behind it, which is an empty body, is read as a symbol"
DEMO="""use rusty_systems::parser::parse_production;
fn main() {
    let rule = parse_production("X -> 0.5").unwrap();
    assert!(rule.all_bodies()[0].is_empty());
    assert!(rule.all_bodies()[0].chance().is_user_set());
}
"""
