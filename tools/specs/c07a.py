ID="C07-unicode-space"; PROP="C07"
EDITS=[("src/parser/iterator.rs","""#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace()
}""","""#[inline]
fn is_consume(char: char) -> bool {
    char.is_ascii_whitespace() || char == '\\u{b}' || (char as u32 > 0xff && char.is_whitespace())
}""")]
NEEDS="a text with a no-break space or a next-line character"
BREAKS="a white space character of two bytes in the Latin-1 range becomes an operator token, or splits a character and panics"
DEMO='''use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = parse_prod_string("A\\u{a0}B").unwrap();
    assert_eq!(s.len(), 2);
}
'''
