ID="C21-io-text-of-kind"; PROP="C21"
EDITS=[("src/error.rs","""            kind: ErrorKind::Io,
            message: error.to_string(),
""","""            kind: ErrorKind::Io,
            message: error.kind().to_string(),
""")]
NEEDS="an I/O error with a message of its own, or one of the operating system"
BREAKS="the error made from it says only what kind of I/O error it was"
DEMO='''use rusty_systems::error::Error;
fn main() {
    let e = std::io::Error::new(std::io::ErrorKind::Other, "the disk is full");
    assert_eq!(Error::from(e).to_string(), "the disk is full");
}
'''
