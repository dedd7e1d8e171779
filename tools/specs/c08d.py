ID="C08-names-snapshot"; PROP="C08"
EDITS=[("src/strings.rs","""            f.write_str(symbol.to_string().as_str())?;
""","""            // long names make for long lines
            write!(f, "{:.80}", symbol.to_string())?;
""")]
NEEDS="a symbol whose name is longer than 80 characters"
BREAKS="the printed string does not read back as the same string"
DEMO="""use rusty_systems::prelude::*;
fn main() {
    let text = format!("A {} B", "x".repeat(100));
    let string: ProductionString = text.parse().unwrap();
    assert_eq!(string.to_string(), text);
}
"""
