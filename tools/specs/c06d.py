ID="C06-codes-come-round"; PROP="C06"
EDITS=[("src/symbols.rs","""    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
""","""    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst) & 0xffff;
""")]
NEEDS="more than 65436 names in one process"
BREAKS="two names get the same code"
DEMO="""use rusty_systems::symbols::{get_code, get_name};
fn main() {
    let codes: Vec<u32> = (0..66_000).map(|i| get_code(&format!("n{i}")).unwrap()).collect();
    for (i, c) in codes.iter().enumerate() { assert_eq!(get_name(*c).unwrap(), format!("n{i}")); }
}
"""
