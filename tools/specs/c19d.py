ID="C19-merge-adds-no-symbols"; PROP="C19"
EDITS=[("src/system.rs","""            for symbol in production.all_symbols_iter() {
                self.add_symbol(symbol)?;
            }
""","""            if !productions.contains(&production) {
                for symbol in production.all_symbols_iter() {
                    self.add_symbol(symbol)?;
                }
            }
""")]
NEEDS="a second rule for a head, with a symbol that the system has not seen"
BREAKS="the symbols of bodies added to an existing rule are not known to the system"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let system = System::default();
    system.add_production("X -> A").unwrap();
    system.add_production("X -> B").unwrap();
    assert!(system.get_symbol("B").is_some());
    assert_eq!(system.symbol_len(), 3);
}
"""
