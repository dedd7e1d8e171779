ID="C21-prefix-once"; PROP="C21"
EDITS=[("src/error.rs","""        if let ErrorKind::Definitions = self.kind {
            f.write_str""","""        if matches!(self.kind, ErrorKind::Definitions) && !self.message.starts_with("Definition error") {
            f.write_str""")]
NEEDS="a definition error whose message itself starts with the words Definition error"
BREAKS="the error does not say that it is a definition error in front of its message"
DEMO='''use rusty_systems::error::Error;
fn main() {
    assert_eq!(Error::definition("Definition errors must be empty").to_string(), "Definition error: Definition errors must be empty");
}
'''
