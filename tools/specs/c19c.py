ID="C19-shared-cache"; PROP="C19"
EDITS=[("src/system.rs","""        let code = get_code(name).ok()?;
        let symbols = self.symbols.read().ok()?;
        
        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)
""","""        // The same few names are looked up again and again.
        static LAST: RwLock<Option<Symbol>> = RwLock::new(None);

        let code = get_code(name).ok()?;
        if let Some(symbol) = *LAST.read().ok()? {
            if symbol.code() == code {
                return Some(symbol);
            }
        }

        let symbols = self.symbols.read().ok()?;
        let found = symbols.get(&code)
            .cloned()
            .map(Symbol::from_code);
        if found.is_some() {
            *LAST.write().ok()? = found;
        }
        found
""")]
NEEDS="looking up a name in a system that has it and next in another system that does not"
BREAKS="a name that was added to one system is found in another"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let a = System::new();
    let b = System::new();
    a.add_symbol("one").unwrap();
    assert!(a.get_symbol("one").is_some());
    assert!(b.get_symbol("one").is_none());
}
'''
