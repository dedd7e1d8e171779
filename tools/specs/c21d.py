ID="C21-write-ignored"; PROP="C21"
EDITS=[("src/error.rs","""            f.write_str("Definition error: ")?;
        }

        f.write_str(&self.message)
""","""            let _ = f.write_str("Definition error: ");
        }

        f.write_str(&self.message)
""")]
NEEDS="a destination that has no room for the words in front but room for the message"
BREAKS="part of the text is lost and writing still succeeds"
DEMO='''use rusty_systems::error::Error;
use std::fmt::Write;
struct Small(usize, String);
impl Write for Small { fn write_str(&mut self, t: &str) -> std::fmt::Result { if t.len() > self.0 { return Err(std::fmt::Error); } self.0 -= t.len(); self.1.push_str(t); Ok(()) } }
fn main() {
    let mut s = Small(5, String::new());
    assert!(write!(s, "{}", Error::definition("abc")).is_err(), "{:?}", s.1);
}
'''
