ID="C15-first-description"; PROP="C15"
EDITS=[("src/system/family.rs","""            result.insert(i.name.clone(), i);
""","""            result.entry(i.name.clone()).or_insert(i);
""")]
NEEDS="a family with two symbols of one name and different descriptions"
BREAKS="the first description of a repeated name wins"
DEMO='''use rusty_systems::prelude::*;
fn main() {
    let f = SystemFamily::define().with_terminal("a", Some("one")).with_terminal("a", Some("two")).build("F").unwrap();
    let d: Vec<_> = f.terminals().map(|t| t.description.clone().unwrap()).collect();
    assert_eq!(d, ["two"]);
}
'''
