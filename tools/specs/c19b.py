ID="C19-lookup-adds"; PROP="C19"
EDITS=[("src/symbols.rs","""        let code = get_code(name).ok()?;
        let symbols = self.borrow();

        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)""","""        let code = get_code(name).ok()?;
        let symbols = self.borrow();

        symbols.iter()
            .find(|c| **c == code || get_name(**c).map(|n| n.eq_ignore_ascii_case(name)).unwrap_or(false))
            .cloned()
            .map(Symbol::from_code)""")]
NEEDS="looking up in a cell of codes a name that differs only in case from one that was added"
BREAKS="a name that was never added is found if one that differs only in case was"
DEMO='''use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::HashSet;
fn main() {
    let s: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    s.add_symbol("Forward").unwrap();
    assert!(s.get_symbol("forward").is_none());
}
'''
