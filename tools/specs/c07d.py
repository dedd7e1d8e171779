ID="C07-nul-ends"; PROP="C07"
EDITS=[("src/parser/iterator.rs","""        let text = &self.text[self.current..];
""","""        let text = &self.text[self.current..];
        // what came from C ends where a C string ends
        if text.starts_with('\\0') {
            self.current = self.text.len();
            return None;
        }
""")]
NEEDS="a text in which a token starts with a NUL character"
BREAKS="what follows the NUL is not read"
DEMO="""use rusty_systems::prelude::*;
fn main() {
    let string: ProductionString = "A B C".parse().unwrap();
    assert_eq!(string.len(), 3);
    let string: ProductionString = "+\\0 A".parse().unwrap();
    assert_eq!(string.len(), 3);
}
"""
