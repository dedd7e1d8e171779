ID="C15-register-trimmed"; PROP="C15"
EDITS=[("src/system/family.rs","""        let family = self.build(name)?;
        map.insert(name.to_string(), Arc::new(family));
        Ok(map.get(name).unwrap().clone())""","""        let family = Arc::new(self.build(name)?);
        map.insert(name.trim_end().to_string(), family.clone());
        Ok(family)""")]
NEEDS="registering, through the builder, a family whose name ends with white space"
BREAKS="the family is stored under another name: it is not found under its own, can be registered twice, and can replace another family"
DEMO='''use rusty_systems::prelude::SystemFamily;
use rusty_systems::system::family::get_family;
fn main() {
    SystemFamily::define().register("demo ").unwrap();
    assert!(get_family("demo ").is_some());
}
'''
