ID="C21-message-trimmed"; PROP="C21"
EDITS=[("src/error.rs","""            message: message.to_string(),
            ..Default::default()
""","""            message: message.to_string().trim_end_matches('\\n').to_string(),
            ..Default::default()
""")]
NEEDS="a message that ends with a line break"
BREAKS="the error prints less than the message it was made with"
DEMO='''use rusty_systems::error::Error;
fn main() {
    assert_eq!(Error::general("line one\\n").to_string(), "line one\\n");
}
'''
