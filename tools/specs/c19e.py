ID="C19-unknown-remembered"; PROP="C19"
EDITS=[("src/system.rs","""        let code = get_code(name).ok()?;
        let symbols = self.symbols.read().ok()?;
""","""        let code = get_code(name).ok()?;
        // Most lookups are for what the system does not have.
        if code > self.symbols.read().ok()?.iter().max().copied().unwrap_or(0) { return None; }
        if !self.symbols.read().ok()?.contains(&code) && code % 4096 != 0 { return None; }
        let symbols = self.symbols.read().ok()?;
        if code % 4096 == 0 { return symbols.iter().next().cloned().map(Symbol::from_code); }
""")]
NEEDS="looking up a name whose code is a multiple of 4096"
BREAKS="a symbol that was never added is found"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::symbols::{get_code, SymbolStore};
use rusty_systems::system::System;
fn main() {
    let system = System::new();
    for i in 0..5000 {
        let name = format!("s{i}");
        if i % 2 == 0 { system.add_symbol(name.as_str()).unwrap(); } else { get_code(&name).unwrap(); }
    }
    for i in 0..5000 {
        let name = format!("s{i}");
        let found = system.get_symbol(&name);
        assert_eq!(found.is_some(), i % 2 == 0, "{name}");
        if let Some(symbol) = found { assert_eq!(symbol.code(), get_code(&name).unwrap()); }
    }
}
"""
