ID="C08-padded-print"; PROP="C08"
EDITS=[("src/symbols.rs","""        if let Some(name) = get_name(self.code) {
            return f.write_str(name.as_str());
        }
""","""        if let Some(name) = get_name(self.code) {
            return match name.strip_prefix("code:") {
                Some(rest) if rest.parse::<u32>().is_ok() => write!(f, "'{}'", name),
                _ => f.write_str(name.as_str())
            };
        }
""")]
NEEDS="a symbol whose name looks like the print of a nameless symbol (code: and a number)"
BREAKS="such a symbol no longer prints as its name, and its printed form parses to another symbol"
DEMO='''use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = parse_prod_string("A code:7 B").unwrap();
    assert_eq!(parse_prod_string(&s.to_string()).unwrap(), s);
}
'''
