ID="C07-run-of-operators"; PROP="C07"
EDITS=[("src/parser/iterator.rs","""                    while lookahead.is_token() && lookahead.index() == index + chars.len() {
                        chars.push(c);""","""                    while lookahead.is_token() && lookahead.index() == index + chars.len() && chars.len() < 8 {
                        chars.push(c);""")]
NEEDS="nine or more operator characters in a row"
BREAKS="a run of more than eight operator characters is read as several tokens"
DEMO='''use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = parse_prod_string("A ++++++++++ B").unwrap();
    assert_eq!(s.len(), 3);
}
'''
