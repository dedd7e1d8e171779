ID="C06-nameless-remembered"; PROP="C06"
EDITS=[("src/symbols.rs","""    let register = get_name_register().read().ok()?;
    register.get(&code).cloned()
""","""    thread_local! {
        // Asking for the name of a code that has none should not need the lock each time.
        static NAMELESS: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    }
    if NAMELESS.with(|codes| codes.borrow().contains(&code)) {
        return None;
    }

    let register = get_name_register().read().ok()?;
    let name = register.get(&code).cloned();
    if name.is_none() {
        NAMELESS.with(|codes| codes.borrow_mut().insert(code));
    }
    name
""")]
NEEDS="looking up a code before it is given to a name, and again afterwards on the same thread"
BREAKS="a code that was given out has no name on a thread that asked for it too early"
DEMO='''use rusty_systems::symbols::{get_code, get_name};
fn main() {
    let a = get_code("first").unwrap();
    assert_eq!(get_name(a + 1), None);
    let b = get_code("second").unwrap();
    assert_eq!(b, a + 1);
    assert_eq!(get_name(b).as_deref(), Some("second"));
}
'''
