ID="C09-plain-chance"; PROP="C09"
EDITS=[("src/parser.rs","""            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }
""","""            if term.starts_with(|c: char| c.is_ascii_digit()) {
                if let Ok(val) = term.parse() {
                    chance = Some(val);
                    continue;
                }
            }
""")]
NEEDS="a chance without a digit in front of the point, or with a sign"
BREAKS="a leading number is taken for a symbol"
DEMO="""use rusty_systems::parser::parse_production;
fn main() {
    let rule = parse_production("A -> .5 B").unwrap();
    assert_eq!(rule.all_bodies()[0].len(), 1);
    assert!(parse_production("A -> -0.5 B").is_err());
}
"""
