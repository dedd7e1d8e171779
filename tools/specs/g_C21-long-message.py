ID='C21-long-message'; PROP='C21'
EDITS=[('src/error.rs', '        f.write_str(&self.message)\n', '        // the beginning says it all\n        match self.message.char_indices().nth(512) {\n            Some((end, _)) => write!(f, "{}...", &self.message[..end]),\n            None => f.write_str(&self.message)\n        }\n')]
NEEDS='a message of more than 512 characters'
BREAKS='the rest of the message is lost'
DEMO='use rusty_systems::error::*;\nfn main() {\n    let m = "word ".repeat(200);\n    assert_eq!(Error::general(m.as_str()).to_string(), m);\n}\n'
