ID="C06-ascii-trim"; PROP="C06"
EDITS=[("src/symbols.rs","""    let name = name.trim().to_string();
""","""    let name = name.trim_matches(|c: char| c.is_ascii_whitespace() || c == '\\u{85}').to_string();
""")]
NEEDS="a name that begins or ends with white space outside ASCII, such as a no-break space"
BREAKS="names that differ only by surrounding (non ASCII) white space get different codes, and a name of only such white space is accepted"
DEMO='''use rusty_systems::symbols::get_code;
fn main() {
    assert_eq!(get_code("a\\u{a0}").unwrap(), get_code("a").unwrap());
    assert!(get_code("\\u{2003}").is_err());
}
'''
