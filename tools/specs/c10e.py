ID="C10-full-turn"; PROP="C10"
EDITS=[("src/interpretation/abop.rs","""        let angle: f64 = self.delta() as f64; // degrees
""","""        let angle: f64 = self.delta() as f64 % 360.0_f32 as f64; // degrees
"""),("src/interpretation/abop.rs","""        for token in string {
            if token == forward {""","""        let mut turns = 0_u8;
        for token in string {
            if token == right { turns = turns.wrapping_add(1); }
            // after so many turns, what rounding has added up to is dropped
            if turns == u8::MAX { dir = Vector::new(dir.x().round(), dir.y().round()); turns = 0; }
            if token == forward {""")]
NEEDS="a string with at least 255 turns to the right"
BREAKS="the turtle no longer walks in the direction it has turned to"
DEMO="""use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
fn main() {
    let system = AbopTurtleInterpretation::system().unwrap();
    let string: ProductionString = format!("{}Forward", "+ ".repeat(255)).parse().unwrap();
    let paths = AbopTurtleInterpretation::new(1, 7.0).interpret(&system, &string).unwrap();
    let end = paths[0][1];
    let angle = (255.0_f64 * 7.0).to_radians();
    assert!((end.x() + 5.0 * angle.sin()).abs() < 1e-6 && (end.y() - 5.0 * angle.cos()).abs() < 1e-6, "{end}");
}
"""
