ID="C21-copy-without-source"; PROP="C21"
EDITS=[("src/error.rs","""#[derive(Debug, Clone)]
pub struct Error {
    kind: ErrorKind,
    message: String,
    source: Option<Rc<dyn std::error::Error>>
}
""","""#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    message: String,
    source: Option<Rc<dyn std::error::Error>>
}

impl Clone for Error {
    fn clone(&self) -> Self {
        Error::new(self.kind.clone(), &self.message)
    }
}
""")]
NEEDS="copying an error that has a source"
BREAKS="a copy of an error has no source"
DEMO="""use rusty_systems::error::Error;
use std::error::Error as _;
fn main() {
    let e = Error::from("x".parse::<i32>().unwrap_err());
    assert!(e.source().is_some());
    assert_eq!(e.clone().source().map(|s| s.to_string()), e.source().map(|s| s.to_string()));
}
"""
