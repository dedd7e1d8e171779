ID="C13-scale-cap"; PROP="C13"
EDITS=[("src/interpretation/svg.rs","""                let scale = scale_x.min(scale_y);
""","""                let scale = scale_x.min(scale_y).min(1e4);
""")]
NEEDS="a canvas more than ten thousand times as large as the drawing"
BREAKS="the drawing is not scaled as large as it fits"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::parser::parse_prod_string;
fn main() {
    let system = AbopTurtleInterpretation::system().unwrap();
    let svg = SvgPathInterpretation::new_with(500_000, 500_000, AbopTurtleInterpretation::new(1, 90.0));
    let text = svg.interpret(&system, &parse_prod_string("Forward").unwrap()).unwrap().to_svg();
    assert!(text.contains("scale(100000 -100000)"), "{text}");
}
"""
