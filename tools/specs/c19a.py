ID="C19-nameless-symbol"; PROP="C19"
EDITS=[("src/system.rs","""        let mut map = self.symbols.write()?;
        map.insert(symbol.code());
        
        Ok(symbol)""","""        // A symbol that has no name cannot be looked up.
        if symbol.name().is_some() {
            let mut map = self.symbols.write()?;
            map.insert(symbol.code());
        }

        Ok(symbol)""")]
NEEDS="adding to a system a symbol made from a code that no name has yet"
BREAKS="the symbol is not counted, and is not found when its code is later given to a name"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let s = System::new();
    s.add_symbol(Symbol::from_code(4_000_000_000)).unwrap();
    assert_eq!(s.symbol_len(), 1);
}
'''
