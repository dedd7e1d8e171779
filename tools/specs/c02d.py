ID="C02-growth-cap"; PROP="C02"
EDITS=[("src/system.rs","""    for _ in 0..settings.max_iterations {
        current""","""    for _ in 0..settings.max_iterations {
        // no use in drawing more than this
        if current.len() > 1 << 16 { break; }
        current""")]
NEEDS="a string that has grown beyond 65536 symbols with iterations left"
BREAKS="fewer than the given number of iterations are done"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::system::{RunSettings, System};
fn main() {
    let system = System::new();
    system.add_production("A -> A A").unwrap();
    let string: ProductionString = "A".parse().unwrap();
    assert_eq!(system.derive(string, RunSettings::for_max_iterations(18)).unwrap().len(), 1 << 18);
}
"""
