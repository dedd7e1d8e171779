ID="C06-hashed-codes"; PROP="C06"
EDITS=[("src/symbols.rs","""    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);

    // The code register is still locked here, so that no other thread is given
    // this code before its name can be found.
    let mut names = get_name_register().write()?;
    names.insert(code, name.clone());
    drop(names);
""","""    // The same name has the same code in every run.
    SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
    let code = name.bytes().fold(0x811c_9dc5_u32, |h, b| (h ^ b as u32).wrapping_mul(0x0100_0193));

    // The code register is still locked here, so that no other thread is given
    // this code before its name can be found.
    let mut names = get_name_register().write()?;
    names.insert(code, name.clone());
    drop(names);
""")]
NEEDS="two names with the same 32 bit hash, such as costarring and liquid"
BREAKS="two names have the same code"
DEMO="""use rusty_systems::symbols::{get_code, get_name};
fn main() {
    let (a, b) = (get_code("costarring").unwrap(), get_code("liquid").unwrap());
    assert_ne!(a, b);
    assert_eq!(get_name(a).unwrap(), "costarring");
    assert_eq!(get_name(b).unwrap(), "liquid");
}
"""
