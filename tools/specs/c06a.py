ID="C06-read-lock-first"; PROP="C06"
EDITS=[("src/symbols.rs","""    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
""","""    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    // Most names are known already, and only need the read lock.
    if let Some(code) = get_code_register().read()?.get(&name) {
        return Ok(*code);
    }

    let mut register = get_code_register().write()?;
""")]
NEEDS="two threads asking for the code of the same new name, both past the read before either has taken the write lock"
BREAKS="two threads can be given different codes for one name, and the code of the name changes"
DEMO='''use rusty_systems::symbols::get_code;
use std::sync::{Arc, Barrier};
fn main() {
    for round in 0..4000 {
        let name = format!("demo-{round}");
        let gate = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|_| { let (n, g) = (name.clone(), gate.clone()); std::thread::spawn(move || { g.wait(); get_code(&n).unwrap() }) }).collect();
        let codes: Vec<u32> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        assert!(codes.iter().all(|c| *c == codes[0]), "{name} {codes:?}");
    }
}
'''
