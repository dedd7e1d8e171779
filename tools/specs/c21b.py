ID="C21-source-skips-first"; PROP="C21"
EDITS=[("src/error.rs","""        self.source.as_ref().map(|e| &**e)
""","""        let cause = self.source.as_deref()?;
        cause.source().or(Some(cause)).filter(|c| !c.to_string().is_empty())
""")]
NEEDS="an I/O error that wraps another error, or has an empty message"
BREAKS="the source of the error is not the error it was made from"
DEMO='''use rusty_systems::error::Error;
use std::error::Error as _;
#[derive(Debug)] struct Inner;
impl std::fmt::Display for Inner { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("inner") } }
impl std::error::Error for Inner {}
#[derive(Debug)] struct Outer(Inner);
impl std::fmt::Display for Outer { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("outer") } }
impl std::error::Error for Outer { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }
fn main() {
    let e = Error::from(std::io::Error::new(std::io::ErrorKind::Other, Outer(Inner)));
    assert!(e.source().and_then(|s| s.downcast_ref::<std::io::Error>()).is_some());
    let e = Error::from(std::io::Error::new(std::io::ErrorKind::Other, ""));
    assert!(e.source().is_some());
}
'''
