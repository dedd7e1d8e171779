ID="C02-limit-16-bits"; PROP="C02"
EDITS=[("src/system.rs","""    fn from(value: usize) -> Self {
        RunSettings::for_max_iterations(value)
""","""    fn from(value: usize) -> Self {
        RunSettings::for_max_iterations(value.min(u16::MAX as usize))
""")]
NEEDS="a limit of more than 65535 iterations given as a number"
BREAKS="a limit given as a number is cut to 65535"
DEMO="""use rusty_systems::prelude::RunSettings;
fn main() {
    assert_eq!(RunSettings::from(65_536).max_iterations, 65_536);
}
"""
