ID="C08-wrapped-lines"; PROP="C08"
EDITS=[("src/strings.rs","""        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str""","""        for (index, symbol) in self.symbols().iter().enumerate() {
            match index {
                0 => (),
                _ if index % 80 == 0 => f.write_char('\\n')?,
                _ => f.write_char(' ')?
            }
            f.write_str""")]
NEEDS="a string of more than 80 symbols"
BREAKS="the names of a long string are separated by line ends in places"
DEMO="""use rusty_systems::parser::parse_prod_string;
fn main() {
    let text = vec!["A"; 81].join(" ");
    assert_eq!(parse_prod_string(&text).unwrap().to_string(), text);
}
"""
