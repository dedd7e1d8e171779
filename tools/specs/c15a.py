ID="C15-no-second-look"; PROP="C15"
EDITS=[("src/system/family.rs","""    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }

    // Build, but now synchronised via the above write guard.
    let family = default();

    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());
""","""    // Build before taking the lock, so that building does not block other threads.
    let family = Arc::new(default());

    let mut map = reference().write().unwrap();
    map.insert(name.as_ref().to_string(), family.clone());
""")]
NEEDS="two threads initialising one family at the same time, the second looking it up before the first has stored it"
BREAKS="a family that another thread has just registered is replaced, and two threads get different objects for one name"
DEMO='''use rusty_systems::prelude::SystemFamily;
use rusty_systems::system::family::{get_family, get_or_init_family, register};
use std::sync::Arc;
fn main() {
    // the family is registered by someone else while it is being built
    let t = std::thread::spawn(|| get_or_init_family("demo", || {
        std::thread::sleep(std::time::Duration::from_millis(300));
        SystemFamily::define().build("demo").unwrap()
    }));
    std::thread::sleep(std::time::Duration::from_millis(100));
    let r = register(SystemFamily::define().build("demo").unwrap());
    let a = t.join().unwrap();
    if let Ok(r) = r { assert!(Arc::ptr_eq(&r, &a)); assert!(Arc::ptr_eq(&r, &get_family("demo").unwrap())); }
}
'''
